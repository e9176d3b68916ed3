"""Which specification, driver and trace specification decide each property."""

MATCHUP_INV = "INVARIANTS\n SensorsAgree BlocksAgree BlockSeqAgree Bijection ValuesAgree CumulativeOk Emit\nPROPERTIES WriteOnce\nCHECK_DEADLOCK FALSE\n"


def matchup_cfg(names, files, m, cols, emit=1):
    return "SPECIFICATION Spec\nCONSTANTS\n Names = {%s}\n MaxFiles = %d\n MaxM = %d\n MaxCols = %d\n EmitMod = %d\n%s" % (
        ", ".join('"%s"' % x for x in names), files, m, cols, emit, MATCHUP_INV)


MATCHUP = [{"module": "MatchupMC", "cfg": matchup_cfg(["a", "b", "c"], 2, 2, 2)}]

CHECKS = {
    p: {"models": MATCHUP, "drivers": [{"driver": "matchup.py", "trace": "MatchupTrace"}], "ext": False}
    for p in ("P01", "P02", "P03", "P04")
}

WFILES_CFG = """SPECIFICATION Spec
CONSTANTS
 Rows = 2
 MaxW = 2
 MaxU = 2
 MaxT = %d
 MaxPos = %d
 MaxK = %d
INVARIANTS SerialAgree RoundTrip RollAgree Overlap Emit
CHECK_DEADLOCK FALSE
"""
WFILES = [{"module": "WFilesMC", "cfg": WFILES_CFG % (3, 5, 3), "thorough_cfg": WFILES_CFG % (4, 6, 4)}]
CHECKS.update({
    p: {"models": WFILES, "drivers": [{"driver": "files.py", "trace": "FilesTrace"}], "ext": False}
    for p in ("P05", "P06", "P07", "P16")
})

PROCESS_CFG = """SPECIFICATION Spec
CONSTANTS
 MaxM = 4
 MaxPos = %d
 MaxK = 3
 Vals = {%s}
INVARIANTS SampledOk RowMeets AllMet SettleAgree SettledAgree Bound Emit
CHECK_DEADLOCK FALSE
"""
PROCESS = [{"module": "ProcessMC", "cfg": PROCESS_CFG % (4, "0, 3"), "thorough_cfg": PROCESS_CFG % (5, "0, 1, 2")}]
CHECKS.update({
    p: {"models": PROCESS, "drivers": [{"driver": "process.py", "trace": "ProcessTrace"}], "ext": True}
    for p in ("P08", "P09", "P10", "P11")
})

SOLVER_CFG = """SPECIFICATION Spec
CONSTANTS
 Seeds = {%s}
 MaxIter = %d
 Costs = {4, 64, 65, 400}
 Steps = {1, 2}
 Grads = {2, 16, 98}
INVARIANTS AlgebraOk LoopOk NotRising Emit
CHECK_DEADLOCK FALSE
"""
SOLVER = [{"module": "SolverMC", "cfg": SOLVER_CFG % ("0, 1, 2, 3, 4, 5", 2), "thorough_cfg": SOLVER_CFG % ("0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10", 3)}]
CHECKS.update({
    p: {"models": SOLVER, "drivers": [{"driver": "solver.py", "trace": "SolverTrace"}], "ext": True}
    for p in ("P12", "P13", "P14")
})

RESULT_CFG = """SPECIFICATION Spec
CONSTANTS
 Sens = {1, 2, 3}
 MaxSeries = %d
 MaxM = %d
INVARIANTS Distinct Complete ListingIrrelevant Again Emit
CHECK_DEADLOCK FALSE
"""
CHECKS["P15"] = {"models": [{"module": "ResultMC", "cfg": RESULT_CFG % (3, 1), "thorough_cfg": RESULT_CFG % (3, 2)}],
                 "drivers": [{"driver": "result.py", "trace": "ResultTrace"}], "ext": False}

SENSORS_CFG = """SPECIFICATION Spec
CONSTANTS
 Off = 4
 Counts = {%s}
 Diffs = {%s}
 Rads = {1, 3}
 Ts = {0, 2}
 Bs = {%s}
INVARIANTS ValueOk CountsOk RadOk TimeOk ParsOk Emit
CHECK_DEADLOCK FALSE
"""
CHECKS["P17"] = {"models": [{"module": "SensorsMC", "cfg": SENSORS_CFG % ("3, 4, 6", "2, 5, 8", "3, 4, 7"),
                             "thorough_cfg": SENSORS_CFG % ("1, 3, 4, 6", "0, 2, 5, 12", "2, 4, 5, 7")}],
                 "drivers": [{"driver": "sensors.py", "trace": "SensorsTrace"}], "ext": False}

MEIV_CFG = """SPECIFICATION Spec
CONSTANTS
 MaxFiles = %d
 Types = {%s}
 Ms = {%s}
 Steps = {%s}
 Mod = %d
INVARIANTS Refers Tiled Rows Emit
CHECK_DEADLOCK FALSE
"""
MEIV = [{"module": "MeivMC", "cfg": MEIV_CFG % (2, "2, 3", "1, 3", "2", 23)},
        {"module": "MeivMC", "cfg": MEIV_CFG % (1, "1, 2, 3, 4", "1, 2, 4", "1, 2, 3", 23)}]
BAND_CFG = """SPECIFICATION Spec
CONSTANTS
 Rows = %d
 Cols = %d
 Steps = {1, 2, 3}
INVARIANTS Same Emit
CHECK_DEADLOCK FALSE
"""
BAND = [{"module": "BandMC", "cfg": BAND_CFG % (2, 3), "thorough_cfg": BAND_CFG % (3, 3)}]
FORTRAN = {"ext": False, "builds": ("fortran",), "fortran_programs": ("probe",)}
CHECKS["P18"] = dict(FORTRAN, models=MEIV, drivers=[{"driver": "meiv.py", "trace": "MeivTrace", "chunk": 60}])
CHECKS["P19"] = dict(FORTRAN, models=MEIV + BAND, drivers=[{"driver": "meiv.py", "trace": "MeivTrace", "chunk": 60}])

CALENDAR_CFG = """SPECIFICATION Spec
CONSTANTS
 FirstYear = %d
 LastYear = %d
INVARIANTS Agrees Emit
CHECK_DEADLOCK FALSE
"""
CHECKS["P20"] = dict(FORTRAN, models=[{"module": "CalendarMC", "cfg": CALENDAR_CFG % (1890, 2110)}],
                     drivers=[{"driver": "meiv.py", "trace": "MeivOutTrace", "chunk": 60}])

STATS_CFG = "SPECIFICATION Spec\nCONSTANTS\n MaxData = %d\nINVARIANTS InOrder Complete Emit\nCHECK_DEADLOCK FALSE\n"
BIN_CFG = "SPECIFICATION Spec\nCONSTANTS\n MaxBins = %d\n Width = %d\n MaxData = 3\nINVARIANTS Once Emit\nCHECK_DEADLOCK FALSE\n"
CHECKS["P21"] = {"models": [{"module": "StatsMC", "cfg": STATS_CFG % 3, "thorough_cfg": STATS_CFG % 4},
                            {"module": "BinMC", "cfg": BIN_CFG % (4, 5), "thorough_cfg": BIN_CFG % (7, 7)}],
                 "drivers": [{"driver": "stats.py", "trace": "StatsTrace"}], "ext": False}

CLI_CFG = "SPECIFICATION Spec\nCONSTANT MaxLen = %d\nINVARIANTS Agrees LastWins Loudness Sufficient Emit\nCHECK_DEADLOCK FALSE\n"
CHECKS["P22"] = {"models": [{"module": "CliMC", "cfg": CLI_CFG % 3, "thorough_cfg": CLI_CFG % 4}],
                 "drivers": [{"driver": "cli.py", "trace": "CliTrace", "chunk": 30}], "ext": True}

KRYLOV_CFG = "SPECIFICATION Spec\nCONSTANTS Width = 3 Damping = %d\nINVARIANTS Finite FirstIsFirst Early Best Least Shortest Small Emit\nCHECK_DEADLOCK FALSE\n"
CHECKS["P23"] = {"models": [{"module": "KrylovMC", "cfg": KRYLOV_CFG % 1, "thorough_cfg": KRYLOV_CFG % 2}],
                 "drivers": [{"driver": "krylov.py", "trace": "KrylovTrace"}], "ext": False}

PLOTS_CFG = "SPECIFICATION Spec\nCONSTANT MaxLen = %d\nINVARIANTS Kept Answered Emit\nCHECK_DEADLOCK FALSE\n"
CHECKS["P24"] = {"models": [{"module": "PlotsMC", "cfg": PLOTS_CFG % 3, "thorough_cfg": PLOTS_CFG % 4}],
                 "drivers": [{"driver": "plots.py", "trace": "PlotsTrace", "chunk": 12}], "ext": False}

CONVERT_CFG = """SPECIFICATION Spec
CONSTANTS
 MaxM = %d
 MaxPos = %d
 MaxK = %d
 MaxFolder = 4
INVARIANTS AvhrrOk AvhrrKept AvhrrMean MwOk MwKept SimOk SimSplit FolderOk Emit
CHECK_DEADLOCK FALSE
"""
CHECKS.update({
    p: {"models": [{"module": "ConvertMC", "cfg": CONVERT_CFG % (2, 1, 2), "thorough_cfg": CONVERT_CFG % (3, 1, 2)}],
        "drivers": [{"driver": "convert.py", "trace": "ConvertTrace", "chunk": 30}], "ext": False}
    for p in ("P25", "P26", "P27", "P28")
})
