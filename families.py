"""Which driver, design models and trace specification decide which property."""

FAMILIES = {
    'subset': dict(driver='drv_subset', trace='SubsetTrace',
                   models=[dict(module='SubsetMC', cfg='SubsetMC.cfg', min_states=1800, dump=True),
                           dict(module='SubsetMC', cfg='SubsetBig.cfg', min_states=2500)]),
    'gradient': dict(driver='drv_gradient', trace='GradientTrace',
                     models=[dict(module='GradientMC', cfg='GradientMC.cfg', min_states=110, dump=True),
                             dict(module='GradientMC', cfg='GradientLive.cfg', min_states=180)]),
    'solver': dict(driver='drv_solver', trace='SolverTrace',
                   models=[dict(module='SolverMC', cfg='SolverMC.cfg', min_states=480, dump=True),
                           dict(module='SolverMC', cfg='SolverLive.cfg', min_states=590)]),
    'store': dict(driver='drv_store', trace='StoreTrace',
                  models=[dict(module='StoreMC', cfg='StoreMC.cfg', min_states=440, dump=True),
                          dict(module='StoreMC', cfg='StoreLive.cfg', min_states=10000)]),
    'history': dict(driver='drv_history', trace='HistoryTrace',
                    models=[dict(module='HistoryMC', cfg='HistoryMC.cfg', min_states=260, dump=True),
                            dict(module='HistoryMC', cfg='HistoryFull.cfg', min_states=47000),
                            dict(module='HistoryMC', cfg='HistoryLossy.cfg', thorough_cfg='HistoryLossyBig.cfg',
                                 min_states=34000)]),
    'evaluator': dict(driver='drv_evaluator', trace='EvaluatorTrace',
                      models=[dict(module='EvaluatorMC', cfg='EvaluatorMC.cfg', min_states=2900, dump=True),
                              dict(module='EvaluatorMC', cfg='EvaluatorLive.cfg', min_states=6600)]),
    'simulated': dict(driver='drv_simulated', trace='SimulatedTrace',
                      models=[dict(module='SimulatedMC', cfg='SimulatedMC.cfg', min_states=1200, dump=True)]),
    'gui': dict(driver='drv_gui', trace='GuiTrace',
                models=[dict(module='GuiMC', cfg='GuiMC.cfg', min_states=190, dump=True),
                        dict(module='GuiWorker', cfg='GuiWorker.cfg', thorough_cfg='GuiWorkerBig.cfg', min_states=8000)]),
    'matlab': dict(driver='drv_matlab', trace='MatlabTrace',
                   models=[dict(module='MatlabMC', cfg='MatlabMC.cfg', thorough_cfg='MatlabBig.cfg', min_states=10000),
                           dict(module='MatlabGates', cfg='MatlabGates.cfg', min_states=1100, dump=True),
                           dict(module='MatlabSessions', cfg='MatlabSessions.cfg', min_states=2100, dump=True)]),
    'loop': dict(driver='drv_loop', trace='LoopTrace',
                 models=[dict(module='LoopMC', cfg='LoopMC.cfg', min_states=190, dump=True),
                         dict(module='LoopMC', cfg='LoopLive.cfg', min_states=190)]),
}

PROPERTIES = {
    'A01': dict(families=[('loop', r'A01\.')]),
    'A02': dict(families=[('loop', r'A02\.|A01\.position')]),
    'A03': dict(families=[('loop', r'A03\.')]),
    'A04': dict(families=[('loop', r'A04\.')]),
    'A05': dict(families=[('loop', r'A05\.'), ('solver', r'A05\.'), ('gradient', r'A05\.')]),
    'A06': dict(families=[('loop', r'A06\.')]),
    'A07': dict(families=[('loop', r'A07\.')]),
    'T01': dict(families=[('subset', r'T01\.')]),
    'T02': dict(families=[('subset', r'T02\.')]),
    'T03': dict(families=[('subset', r'T03\.')]),
    'T04': dict(families=[('subset', r'T04\.')]),
    'T05': dict(families=[('subset', r'T05\.')]),
    'G01': dict(families=[('gradient', r'G01\.')]),
    'G02': dict(families=[('gradient', r'G02\.'), ('subset', r'G02\.'), ('solver', r'G02\.')]),
    'G03': dict(families=[('gradient', r'G03\.')]),
    'G04': dict(families=[('gradient', r'G04\.')]),
    'S01': dict(families=[('solver', r'S01\.')]),
    'S02': dict(families=[('solver', r'S02\.')]),
    'S03': dict(families=[('solver', r'S03\.')]),
    'S04': dict(families=[('solver', r'S04\.')]),
    'H01': dict(families=[('store', r'H01\.')]),
    'H02': dict(families=[('store', r'H02\.'), ('solver', r'H02\.'), ('gradient', r'H02\.'),
                          ('evaluator', r'H02\.')]),
    'E01': dict(families=[('evaluator', r'E01\.')]),
    'E02': dict(families=[('evaluator', r'E02\.')]),
    'E03': dict(families=[('evaluator', r'E03\.')]),
    'E04': dict(families=[('evaluator', r'E04\.')]),
    'E05': dict(families=[('simulated', r'E05\.')]),
    'H03': dict(families=[('store', r'H03\.')]),
    'H04': dict(families=[('store', r'H04\.')]),
    'Y01': dict(families=[('history', r'Y01\.')]),
    'Y02': dict(families=[('history', r'Y02\.')]),
    'Y03': dict(families=[('history', r'Y03\.')]),
    'Y04': dict(families=[('history', r'Y04\.')]),
    'U01': dict(families=[('gui', r'U01\.')]),
    'U02': dict(families=[('gui', r'U02\.')]),
    'U03': dict(families=[('gui', r'U03\.')]),
    'U04': dict(families=[('history', r'U04\.')]),
    'M01': dict(families=[('matlab', r'M01\.')]),
    'M02': dict(families=[('matlab', r'M02\.')]),
    'M03': dict(families=[('matlab', r'M03\.')]),
    'M04': dict(families=[('matlab', r'M04\.')]),
}
