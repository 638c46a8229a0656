"""Oracle, bounds and reach of each check (text of DESIGN.md)."""
N = dict(
C01=('the initial attributes of the bunch (identity of value numbers)',
     'all element classes x pusher/order x n_out in {None, 2} x csr x out_initial; particles and contents symbolic',
     'a conservation law over every option combination; tests look at a few statistics of one run'),
C02=('identity of value numbers for completeness; disjointness of abstract cells for independence',
     'all public attributes; all elements with n_out up to 3',
     'aliasing only shows when somebody mutates later'),
C03=('the Boris scheme, written from its equations in `c03.py`; fields are an uninterpreted function of position and time',
     'none: one and two steps from an arbitrary state with arbitrary fields',
     'tests use fields without B_z and compare final statistics'),
C04=('classical RK4 of the equations of motion, as terms', 'none (as C03)', 'a wrong stage time is invisible in static fields'),
C05=('result = old content + f(position, time), f free of the old content', 'all built-in field classes; up to three fields in every order',
     'an overwriting field only matters when combined with another one'),
C06=('the bilinear formula on symbolic node values', 'symbolic grid sizes; regions: interior, below first node, outside on every side, exact axis',
     'measure-zero positions (axis, edges)'),
C07=('partition of unity and first moment of the stored increments; spline shapes', 'particle position drawn in every region of the grid incl. the boundary cells; grid sizes symbolic',
     'only particles in particular half cells show a defect'),
C09=('race freedom: affine index analysis of every `prange` loop (and of loops in functions compiled with parallel=True that numba parallelises)', 'none: every parallel function of the repository is enumerated from its decorators',
     'quantifies over thread schedules'),
C10=('effect analysis: thread count on each normal and exceptional exit', 'exceptions may be raised by each call into a field, diagnostic, user function',
     'quantifies over fault points'),
C11=('coefficients of the flow, obtained by integrating the magnet Hamiltonian as a truncated power series (`wsa/optics.py`, independent of the code)', 'all magnet classes, order 1 and 2; parameters symbolic (drawn), incl. k1 of both signs',
     'tests compare a bunch average to pinned numbers'),
C12=('ballistic step before, step of a bunch without z_injection afterwards', 'both pushers, one and two steps', 'the crossing step is one of very many'),
C13=('inverse functions: identity of value numbers after a round trip', 'all matrix types', 'algebraic identity over all bunches'),
C14=('the map of C11 for the partial lengths; reference path geometry', 'n_out in {None, 1, 2, 3}, all magnets, both orders, arbitrary entry frame',
     'tests never bend by negative angles or enter with an offset'),
C15=('openPMD semantics of position + positionOffset, unitSI and unitDimension', 'all elements; one and two bunches; symbolic times',
     'tests only check that files are written'),
C16=('the fields gathered by a particle at the node (analysed code against analysed code) and grid formulas', 'all gridded wakefield models, grid sizes symbolic or of the listed instances', 'tests only check that files are written'),
C18=('call protocol: arguments of the element and tracker calls', 'all field elements; lists of 1-3 bunches and elements', 'hand-over of options is never checked by results'),
C19=('the model object built directly from the same keywords (all attributes compared)', 'every keyword of every model, each with its own symbol', 'an option that is dropped changes nothing in a default run'),
C21=('an inductive invariant of the event loop: entry, preservation by a generic iteration, exit condition. The loop body is analysed once, with arbitrary times, steps and object order', 'up to 2 bunches, 2 fields, diagnostics on/off; steps symbolic, constant or adaptive',
     'quantifies over schedules; real-number times (rounding is C91)'),
C22=('sequence and arguments of initialise/evolve/calculate calls', '4 updates, 2 trackings; symbolic density profile, lengths, steps', 'multi-step histories, and reuse of elements'),
C23=('refusal: no normal exit under the differing argument; value identity for kept envelopes', 'every grid argument separately and histories init / evolve / step change', 'histories'),
C24=('paraxial modes written from the textbook formulas in complex arithmetic', 'Gaussian, Laguerre p<=4, flattened N in {0, 1, 2, 3, 6}, sums of two and three; continuous parameters symbolic', 'tests use one pulse at focus'),
C25=('the discretised equation solved by elimination on the terms (reference written independently)', '20 instances: grids of 3-8 x 2-6 nodes, 1-3 substeps, 2-5 evolve calls, changes of dt, subgrid on/off, phase on/off; contents symbolic', 'first step, changed dt and subgrid branches are not separated by tests'),
C30=('call protocol, step arithmetic, geometry of the path; kicks compared between histories (relational)', 'sequences of up to three elements, repeated or not; symbolic lengths and angles. The kernel formula itself is not judged (C92)', 'no test uses CSR'),
C31=('profile formulas and their end values', 'all ramp types, up and down, with and without decay length', 'each combination is one branch'),
C32=('covariance matrix from the coefficients of the random draws (affine forms)', 'none: exact second moments over all seeds', 'tests would need statistics'),
C33=('weighted moments written as reductions', 'symbolic number of particles and slices', 'all bunches'),
C34=('composition writer o reader on the dataset level', 'all formats of the repository', 'file format round trip over all bunches'),
C35=('field formulas', 'none', 'all positions, times and profiles'),
C36=('0.1/omega_beta', 'all elements with dt_bunch="auto"', 'wrong maxima only show for non-monotonic profiles'),
C38=('the fluid equations on the grid, integrated by the same documented scheme, written independently', '8 instances: grids of 4-6 x 3-4 nodes (thorough: 12, up to 8 x 5), laser and up to two bunches, two updates; contents symbolic', 'tests pin a few numbers of one configuration'),
C39=('the Baxevanis-Stupakov model with column of particles, written independently in `c39.py`', '11 instances: 3-8 slices, 3-4 cells, both pushers, axis crossings, max_gamma, two updates (thorough: 15, larger columns and bunches); contents symbolic', 'branches depend on axis crossings and on gamma limits'),
)
