"""Properties of Wake-T that static analysis cannot decide here."""

PROPS = [
    dict(id='C90', title='Converged plasma wakefields match the physics '
         'model',
         statement='For sufficiently fine grids the computed plasma '
         'wakefields, laser evolution and space-charge fields converge to '
         'the solution of the model equations.',
         over=['inputs', 'configurations'],
         text='every resolution, driver and plasma profile',
         why='tests sample one resolution per model',
         files=['wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/'
                'solver.py'],
         mechanism=[('predictor-corrector plasma column',
                     'wake_t/physics_models/plasma_wakefields/'
                     'qs_rz_baxevanis/solver.py')],
         reason='a statement about the limit of numerical solutions: '
         'truncation and stability errors are run-time quantities that no '
         'static argument in reach bounds'),
    dict(id='C91', title='Every update happens despite rounding of the times',
         statement='The tracking schedule performs the nominal number of '
         'bunch pushes, field updates and diagnostics for every combination '
         'of stage length, time steps and number of outputs, also where the '
         'times that are compared differ only by rounding errors.',
         over=['inputs', 'schedules'],
         text='every combination of lengths and time steps',
         why='tests use a handful of combinations',
         files=['wake_t/tracking/tracker.py'],
         mechanism=[('event loop', 'wake_t/tracking/tracker.py')],
         reason='depends on the rounding of accumulated floating-point times; '
         'the analysis uses real-number semantics and cannot count loop '
         'iterations at run time'),
    dict(id='C92', title='CSR wake agrees with the 1D CSR theory',
         statement='The energy change applied by coherent synchrotron '
         'radiation equals that of the one-dimensional CSR theory for the '
         'trajectory travelled so far.',
         over=['inputs', 'histories'],
         text='every bunch and lattice',
         why='no test compares with theory',
         files=['wake_t/physics_models/collective_effects/csr.py'],
         mechanism=[('kernel integration',
                     'wake_t/physics_models/collective_effects/csr.py')],
         reason='the kernel is integrated over a data-dependent trajectory '
         'with iterative retarded-time search; its accuracy is a numerical '
         'run-time quantity'),
]
