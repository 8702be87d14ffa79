PROP = 'C06'
NEEDS = 'two boundaries, the first (lower mark) with its own default action and the second without one, so that the second should use the global default'
BREAKS = 'a boundary without its own default action inherits the default of the boundary with the next lower mark instead of the global default (C++ movers)'
EDITS = [('cpp/ParticleMeshBoundaryConditions.h',
"""        for (auto intTag : particleBoundaryTags)
          {
            // Create""",
"""        bcBoundaryDefaultFunctionPtr = bcGlobalDefaultFunctionPtr;
        for (auto intTag : particleBoundaryTags)
          {
            // Create"""),
('cpp/ParticleMeshBoundaryConditions.h',
"""                bcBoundaryDefaultFunctionPtr = it->second;
              }
            else
              {
                bcBoundaryDefaultFunctionPtr = bcGlobalDefaultFunctionPtr;
              }
""",
"""                bcBoundaryDefaultFunctionPtr = it->second;
              }
""")]
LIBS = ['simlib.py', 'dtlib.py', 'core.py']
DEMO = '''
import sys, dt_pybind11_bridge, numpy_types_solib
import simlib
# a radial mesh: reflecting 'rmin' (mark 1), 'wall' (mark 2) falls back to the global default, which absorbs
p = dict(c=3, w=[0.5, 0.5, 0.5, 0.5], v=[1.0, 0, 0], s=3.0, wt=1.0, tr=False)
spec = dict(mesh=dict(dim=1, n=[4], lo=[1.0], hi=[2.0], jit=0.0, seed=0, grade=0.0, radial=True), dt=1.0, L=4, nsteps=1, bnd=['rmin', 'wall'],
            species=[dict(name='ions', qm=0, neutral=False, parts=[p])], field=None, kind=['r', 'charged'])
S = simlib.Sim(spec, True)
S.begin(); S.advance()
n = len(S.state('ions'))
print('left:', n)
sys.exit(0 if n == 0 else 1)
'''
