"""the bounded harnesses (compiled from /repo's current sources) that several properties share"""
RESHAPE = [{'name': 'reshape', 'flags': ['-DOMPI_SKIP_MPICXX=1', '-fno-access-control'], 'timeout': 200}]
PIPELINE = [{'name': 'pipeline', 'flags': ['-DOMPI_SKIP_MPICXX=1', '-fno-access-control'], 'timeout': 240,
             'libs': ['-lfftw3', '-lfftw3f', '-lmkl_intel_ilp64', '-lmkl_gnu_thread', '-lmkl_core', '-Wl,--push-state,--no-as-needed', '-lgomp', '-Wl,--pop-state']}]
BOUNDED_TECH = 'bounded stand-in: the real functions, compiled from the current tree, against an independent oracle on generated inputs; no contract unit discharged yet'
BOUNDED_NOTE = 'bounded check, not a proof: the functions this property depends on are not yet within the reach of the verifier'

API = [dict(PIPELINE[0], name='api')]
STOCK = [{'name': 'stock', 'flags': ['-DOMPI_SKIP_MPICXX=1', '-fno-access-control'], 'timeout': 200}]
GEOMETRY = [{'name': 'geometry', 'sources': ['src/heffte_plan_logic.cpp'], 'timeout': 120}]
