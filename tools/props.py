"""Registry: which harnesses decide which property, over which sources and bounds."""
import os; V_ = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def H(name, src, **kw):
    d = dict(name=name, src=src); d.update(kw); return d
PROPS = {}
PROPS['P13'] = dict(harnesses=[
    H('tok', 'p13_tok.cpp', cfg={'quick': [dict(mode=0, N=5), dict(mode=1, N=6), dict(mode=0, N=3, pad=16)], 'thorough': [dict(mode=0, N=7), dict(mode=1, N=9), dict(mode=0, N=4, pad=16), dict(mode=1, N=4, pad=16)]},
      covers=['two tokens', 'blank line', 'quoted token', 'char mode'], bounds='every string of at most N characters (all 8-bit values except CR), optionally after a 16-character prefix'),
    H('clean', 'p13_clean.cpp', cfg={'quick': [dict(mode=m, N=4) for m in range(6)], 'thorough': [dict(mode=m, N=6) for m in range(6)]},
      covers=['id', 'quotes', 'trim', 'bool', 'case', 'otherword'], bounds='identifiers of 1-2 characters, texts of at most N characters'),
])

PROPS['P11'] = dict(harnesses=[
    H('dc', 'p11_dc.cpp', repo=['component/data_collection.cpp'],
      cfg={'quick': [dict(t=t, K=2, dt=1 + t % 3) for t in range(7)] + [dict(mode=1, t=t) for t in range(7)], 'thorough': [dict(t=t, K=3, dt=1 + t % 3) for t in range(7)] + [dict(mode=1, t=t) for t in range(7)]},
      covers=['re-add', 'index range', 'copied'], bounds='K add/set calls over 4 element addresses and 2 of the 7 value types per run, all values symbolic; 15 representative index values'),
])
SIM = ['sim.cpp']
PROPS['P01'] = dict(harnesses=[
    H('tm', 'p01_tm.cpp', rt=SIM, repo=['parallel/communicator.cpp'],
      cfg={'quick': [dict(mode=0, np=2, M=3, X=12), dict(mode=0, np=3, M=2, X=6), dict(mode=1, np=3, M=3, M2=2, grp=1, X=8), dict(mode=1, np=4, M=2, grp=2, X=6), dict(mode=2, np=3, M=3, X=7), dict(mode=3, np=3, M=3, M2=2, grp=2, X=6), dict(mode=0, np=1, M=3, X=0)],
           'thorough': [dict(mode=0, np=2, M=4, M2=2, X=18), dict(mode=0, np=3, M=3, X=9), dict(mode=1, np=3, M=4, M2=3, grp=1, X=12), dict(mode=1, np=4, M=3, grp=2, X=9), dict(mode=2, np=3, M=4, X=10), dict(mode=3, np=4, M=3, M2=3, grp=2, X=8), dict(mode=0, np=1, M=9, X=0)]},
      covers=['tasks', 'none', 'reset', 'groups', 'after cancel', 'two managers'],
      bounds='np processes (1-4), task counts 0..M then 0..M2 symbolic, every choice of the next process at up to X scheduling points (each one-sided operation and each completed collective is one), default order after that'),
])
PROPS['P02'] = dict(harnesses=[
    H('comm', 'p02_comm.cpp', rt=SIM, repo=['parallel/communicator.cpp'],
      cfg={'quick': [dict(mode=0, np=n, red=r) for n in (1, 2, 5, 7) for r in (0, 3)] + [dict(mode=0, np=4, red=r) for r in (1, 2)] + [dict(mode=1, np=4, red=r, colors=2) for r in (0, 1, 2)] + [dict(mode=1, np=3, red=3, colors=3, rev=1), dict(mode=2, np=3, red=0, rev=1), dict(mode=2, np=3, red=3), dict(mode=1, np=2, red=0, X=6)],
           'thorough': [dict(mode=0, np=n, red=0) for n in (3, 6, 8, 11, 15)] + [dict(mode=0, np=5, red=r) for r in (1, 2, 3)] + [dict(mode=1, np=5, red=r, colors=3) for r in (0, 3)] + [dict(mode=1, np=4, red=r, colors=3, rev=1) for r in (1, 2)] + [dict(mode=2, np=4, red=r, rev=r % 2) for r in range(4)] + [dict(mode=1, np=3, red=0, X=9)]},
      covers=['divide', 'uneven', 'split', 'all one colour', 'nested'], bounds='np processes (1-15), symbolic group size 1..np+2, symbolic colours, symbolic operands of the reductions'),
])
PROPS['P03'] = dict(harnesses=[
    H('store', 'p03_store.cpp', rt=SIM, repo=['parallel/communicator.cpp'],
      cfg={'quick': [dict(mode=0, np=2, K=3, L=2, t=0), dict(mode=0, np=3, K=2, L=2, t=1, back=1), dict(mode=0, np=3, K=2, L=2, t=2, sub=1), dict(mode=0, np=2, K=2, L=1, t=0, X=6), dict(mode=1, np=2, K=3, L=1, t=0), dict(mode=1, np=3, K=2, L=1, t=2, back=1), dict(mode=1, np=2, K=3, L=1, t=1, rev=1, back=1), dict(mode=1, np=1, K=3, L=1, t=0)],
           'thorough': [dict(mode=0, np=3, K=4, L=2, t=0), dict(mode=0, np=2, K=3, L=4, t=2, back=1), dict(mode=0, np=4, K=3, L=2, t=1, sub=1), dict(mode=0, np=2, K=3, L=2, t=0, X=8), dict(mode=1, np=3, K=4, L=1, t=0), dict(mode=1, np=4, K=3, L=1, t=2, back=1), dict(mode=1, np=2, K=3, L=1, t=1, X=8)]},
      covers=['store', 'empty', 'vector', 'reload'], bounds='np processes, K indices, vectors of 0..L elements of double, int or a struct, every placement; X symbolic scheduling choices'),
])
PROPS['P04'] = dict(harnesses=[
    H('hash', 'p04_hash.cpp', rt=SIM, repo=['parallel/communicator.cpp', 'parallel/index_hash.cpp'],
      cfg={'quick': [dict(mode=m, np=1, N=2, Q=2, rev=m) for m in (0, 1)] + [dict(mode=0, np=2, N=2, Q=2), dict(mode=1, np=2, N=2, Q=1, rev=1), dict(mode=0, np=3, N=2, Q=1), dict(mode=1, np=3, N=1, Q=1), dict(mode=0, np=2, N=2, Q=1, reps=2), dict(mode=1, np=2, N=1, Q=2, reps=2)] + [dict(mode=m, np=2, N=1, Q=1, X=6) for m in (0, 1)],
           'thorough': [dict(mode=m, np=2, N=3, Q=1, rev=m, reps=2) for m in (0, 1)] + [dict(mode=m, np=2, N=2, Q=2) for m in (0, 1)] + [dict(mode=m, np=3, N=2, Q=1, rev=1) for m in (0, 1)] + [dict(mode=0, np=3, N=2, Q=2)] + [dict(mode=m, np=2, N=2, Q=1, X=9) for m in (0, 1)]},
      covers=['found', 'not found', 'several values'], bounds='np processes, N stored pairs, Q requests, all keys and values arbitrary 32-bit integers, every placement'),
])
PROPS['P05'] = dict(harnesses=[
    H('shuffle', 'p05_shuffle.cpp', rt=SIM, repo=['parallel/communicator.cpp', 'parallel/distributed.cpp'],
      cfg={'quick': [dict(np=1, K=2), dict(np=2, K=2), dict(np=3, K=1), dict(np=2, K=3, rounds=1, rev=1), dict(np=4, K=1, rounds=1)], 'thorough': [dict(np=2, K=4), dict(np=3, K=2, rev=1), dict(np=4, K=1), dict(np=3, K=2)]},
      covers=['moved', 'kept', 'nothing', 'back'], bounds='np processes, 0..K items on each, symbolic destinations and contents, list members of 0-2 elements'),
])

COMP = ['component/base_component.cpp', 'component/data_collection.cpp', 'component/base_analytics_intfc.cpp']
YM = COMP + ['applications/components/y_matrix/ymatrix_components.cpp']
PROPS['P15'] = dict(harnesses=[
    H('ybus', 'p15_ybus.cpp', repo=YM,
      cfg={'quick': [dict(E=1, sh=2, bs=2), dict(E=2, sh=0, flip=1), dict(E=2, sh=1, xf=1, bs=1), dict(E=1, nb=3, br=3, sh=0), dict(E=1, iso=1, xf=0), dict(E=1, sh=1, reload=1, swset=0, bs=1)],
           'thorough': [dict(E=2, sh=2, bs=2, flip=1), dict(E=3, sh=0, flip=1), dict(E=3, sh=1, bs=1), dict(E=2, nb=3, br=2, sh=1, bs=1), dict(E=1, nb=3, br=3, sh=2, iso=1), dict(E=2, sh=1, reload=1, swset=0, bs=2)]},
      covers=['branch', 'branch out', 'transformer', 'switched', 'shunt', 'isolated', 'flip'], bounds='all real parameters; up to E parallel elements per branch, 3 buses, 3 branches, every service state, tap side and presence of shunt fields'),
])
PF = YM + ['applications/components/pf_matrix/pf_components.cpp']
PROPS['P16'] = dict(harnesses=[
    H('pf', 'p16_pf.cpp', repo=PF,
      cfg={'quick': [dict(nb=2, br=1, E=1), dict(nb=2, br=1, E=1, iso=1, xf=0, cplx=1), dict(nb=2, br=1, E=1, flip=1, xf=0, ng=0, nl=0), dict(nb=2, br=1, E=1, ng=2, nl=2, xf=0, stat=0, cplx=1)],
           'thorough': [dict(nb=2, br=1, E=2), dict(nb=3, br=2, E=1, var=0, ng=1, xf=0, stat=0, iso=1), dict(nb=3, br=3, E=1, var=0, ng=0, xf=1, stat=0), dict(nb=2, br=1, E=2, flip=1, ng=0, nl=0)]},
      covers=['reference', 'pv', 'isolated', 'load bus', 'off-diagonal', 'flip'], bounds='all real states and parameters; nb buses of every type, br branches of E elements in every service state, ng generators, nl loads')])

PROPS['P17'] = dict(harnesses=[
    H('qlim', 'p17_qlim.cpp', repo=PF,
      cfg={'quick': [dict(ng=2, nl=2, var=1), dict(ng=1, nl=1, rounds=2), dict(ng=2, nl=1, out=1), dict(ng=2, nl=1, out=2)],
           'thorough': [dict(ng=3, nl=3, var=1), dict(ng=2, nl=2, rounds=2), dict(ng=3, nl=2, out=1), dict(ng=3, nl=2, out=2)]},
      covers=['upper', 'lower', 'within', 'not pv', 'outage'], bounds='all real states, limits and injections; up to ng generators and nl loads in every service state; enforcement, re-enforcement and clearing, with and without a generator outage in between'),
])

NET = COMP + ['parallel/communicator.cpp', 'parallel/distributed.cpp', 'parallel/index_hash.cpp', 'partition/adjacency_list.cpp', 'partition/graph_partitioner.cpp', 'partition/graph_partitioner_implementation.cpp', 'partition/parmetis/graph_partitioner.cpp', 'partition/parmetis/parmetis_graph_partitioner_impl.cpp', 'partition/parmetis/parmetis_graph_wrapper.cpp', 'configuration/no_print.cpp', 'timer/coarse_timer.cpp', 'timer/local_timer.cpp']
PROPS['P24'] = dict(harnesses=[
    H('part', 'p24_part.cpp', rt=SIM, repo=NET,
      cfg={'quick': [dict(np=2, nb=3, br=2, place=1, iso=1), dict(np=3, nb=4, br=3, place=0, rev=1), dict(np=2, nb=3, br=3, place=1, par=1, bpl=0, flip=1), dict(np=4, nb=3, br=2, place=2), dict(np=3, nb=3, br=2, place=2, rounds=2), dict(np=2, nb=4, br=4, place=2, rev=1), dict(np=1, nb=3, br=2, place=0, iso=1, flip=1, par=1), dict(np=3, nb=3, br=1, place=1)],
           'thorough': [dict(np=3, nb=4, br=4, place=2), dict(np=2, nb=4, br=3, place=1), dict(np=2, nb=5, br=5, place=2), dict(np=3, nb=3, br=3, place=1, par=1), dict(np=4, nb=4, br=3, place=0), dict(np=3, nb=4, br=3, place=2, rounds=2), dict(np=6, nb=3, br=2, place=2, rev=1), dict(np=2, nb=3, br=2, place=1, rounds=3)]},
      covers=['partitioned', 'ghost', 'process without buses', 'cleaned'], bounds='np processes, nb buses and br branches, every graph (par: with parallel branches, flip: every orientation), place 0: all elements start on process 0, 1: every placement (branches with their first end if bpl=0), 2: round robin; every assignment of buses to processes by the partitioner; symbolic contents; rounds: partition, clean and partition again')])

NB = 'np processes, nb buses and br branches, every graph (par: with parallel branches, flip: every orientation), every ownership of the buses; '
PROPS['P06'] = dict(harnesses=[
    H('topo', 'p06_topo.cpp', rt=SIM, repo=NET,
      cfg={'quick': [dict(mode=3, np=1, nb=4, br=3), dict(mode=3, np=1, nb=3, br=3, par=1, flip=1), dict(mode=0, np=2, nb=3, br=3, par=1), dict(mode=0, np=3, nb=4, br=3, ref=0), dict(mode=1, np=2, nb=4, br=3), dict(mode=1, np=3, nb=3, br=2, dirty=0), dict(mode=2, np=3, nb=4, br=3, ref=0, flag=1), dict(mode=2, np=2, nb=3, br=2, ref=0, flag=0, flip=1)],
           'thorough': [dict(mode=3, np=1, nb=5, br=4), dict(mode=3, np=1, nb=4, br=4, par=1, flip=1), dict(mode=0, np=3, nb=4, br=4, par=1), dict(mode=0, np=4, nb=4, br=3), dict(mode=1, np=3, nb=4, br=4, par=1), dict(mode=2, np=3, nb=5, br=4, ref=0, flag=1), dict(mode=2, np=4, nb=4, br=3, ref=0, flag=0, flip=1)]},
      covers=['clean', 'clone', 'renumber', 'reference kept', 'ghost', 'process without buses'], bounds=NB + 'mode 3: one process and every set of active flags; cleaning, copying to another network type, renumbering (no parallel branches); symbolic contents')])
PROPS['P07'] = dict(harnesses=[
    H('ghost', 'p07_ghost.cpp', rt=SIM, repo=NET,
      cfg={'quick': [dict(np=2, nb=3, br=3, par=1), dict(np=3, nb=4, br=3, w=1, ext=1), dict(np=2, nb=4, br=3, w=3, rw=1, rounds=1, comp=1), dict(np=4, nb=3, br=2, reinit=1), dict(np=2, nb=2, br=1, X=9, w=1, rounds=1), dict(np=3, nb=3, br=2, w=0, rw=1, rev=1, comp=1), dict(np=3, nb=3, br=2, rw=0, rev=1)],
           'thorough': [dict(np=3, nb=4, br=4, par=1), dict(np=3, nb=5, br=4, w=1, ext=1, rounds=1), dict(np=4, nb=4, br=3, w=3, rw=1, comp=1), dict(np=5, nb=4, br=3, reinit=1, rounds=1), dict(np=2, nb=3, br=2, X=14, w=1, rounds=2), dict(np=3, nb=3, br=2, X=8, w=1, rounds=1)]},
      covers=['buses', 'ghost bus', 'ghost branch', 'component buffers'], bounds=NB + 'buffers of w and rw doubles with symbolic contents, up to 2 updates; X symbolic scheduling choices')])
PROPS['P08'] = dict(harnesses=[
    H('fact', 'p08_fact.cpp', rt=SIM, repo=NET,
      cfg={'quick': [dict(np=2, nb=3, br=3, par=1, flip=1), dict(np=3, nb=4, br=3, ref=0), dict(np=2, nb=4, br=3, twice=1), dict(np=4, nb=3, br=2, fl=1, ref=0), dict(np=1, nb=4, br=4, par=1), dict(np=3, nb=3, br=2, fl=1, rev=1)],
           'thorough': [dict(np=3, nb=4, br=4, par=1), dict(np=3, nb=5, br=4, ref=0), dict(np=2, nb=5, br=5, ref=0), dict(np=4, nb=4, br=3, twice=1), dict(np=5, nb=3, br=2, fl=1)]},
      covers=['ghost', 'wired'], bounds=NB + 'every reference bus, every combination of flags')])
PROPS['P09'] = dict(harnesses=[
    H('map', 'p09_map.cpp', rt=SIM, repo=NET,
      cfg={'quick': [dict(op=0, np=2, nb=3, br=2), dict(op=3, np=3, nb=3, br=2, sz=0), dict(op=8, np=1, nb=3, br=3, sz=0, val=1), dict(op=1, np=2, nb=2, br=1, sz=2, on=2, val=1), dict(op=2, np=4, nb=3, br=2, sz=0, on=0), dict(op=0, cplx=0, np=2, nb=3, br=2, sz=0), dict(op=4, np=2, nb=3, br=2), dict(op=13, np=3, nb=3, br=1, sz=0), dict(op=5, cplx=0, np=2, nb=3, br=1, sz=0)],
           'thorough': [dict(op=0, np=3, nb=3, br=2), dict(op=3, np=3, nb=3, br=3, sz=0), dict(op=8, np=2, nb=3, br=3, sz=0, val=1), dict(op=1, np=2, nb=3, br=2, sz=2, on=2, val=1), dict(op=2, np=4, nb=4, br=3, sz=0, on=0), dict(op=0, cplx=0, np=3, nb=4, br=3, sz=0), dict(op=4, np=3, nb=3, br=2), dict(op=13, np=3, nb=4, br=2, sz=0), dict(op=5, cplx=0, np=3, nb=3, br=2, sz=0)]},
      covers=['forward', 'reverse', 'increment', 'overwrite', 'vector', 'push', 'no contribution'], bounds=NB + 'block sizes 1-2 per component, every subset of contributing components (on), three rounds of map / reset and map / overwrite or increment with new symbolic values, real and complex entries; at most one branch between two buses; the math library is replaced by a model of its matrix and vector interface')])
PROPS['P10'] = dict(harnesses=[
    H('gen', 'p10_gen.cpp', rt=SIM, repo=NET,
      cfg={'quick': [dict(mode=0, np=2, nb=3, br=2), dict(mode=0, np=3, nb=3, br=2, cnt=0, op=3, all=1), dict(mode=0, np=2, nb=3, br=3, cnt=0, op=9, extra=1), dict(mode=0, np=2, nb=3, br=2, cnt=0, op=2, extra=2, rev=1), dict(mode=0, np=2, nb=2, br=1, cnt=2), dict(mode=1, np=2, nb=3, br=2), dict(mode=1, np=3, nb=3, br=2, cnt=0, op=9), dict(mode=2, np=2, nb=3, br=2), dict(mode=2, np=4, nb=3, br=2, cnt=0, op=1, ncol=1), dict(mode=2, np=3, nb=3, br=2, cnt=0, op=8)],
           'thorough': [dict(mode=0, np=3, nb=3, br=2), dict(mode=0, np=3, nb=4, br=3, cnt=0, op=3, all=1), dict(mode=0, np=2, nb=4, br=3, cnt=0, op=9, extra=1), dict(mode=0, np=3, nb=3, br=2, cnt=0, op=2, extra=2, rev=1), dict(mode=0, np=2, nb=3, br=1, cnt=2), dict(mode=1, np=3, nb=3, br=2), dict(mode=1, np=3, nb=4, br=3, cnt=0, op=9), dict(mode=2, np=3, nb=3, br=2), dict(mode=2, np=4, nb=4, br=3, cnt=0, op=1, ncol=1), dict(mode=2, np=3, nb=4, br=3, cnt=0, op=8)]},
      covers=['ghost', 'branch value', 'increment', 'overwrite', 'vector', 'slab', 'back', 'no rows'], bounds=NB + '0-2 rows, columns and values per component, values at own rows and columns of neighbours, slabs of ncol columns, increments, overwrites and the way back; the math library is replaced by a model of its matrix and vector interface')])

PFN = NET + ['applications/components/y_matrix/ymatrix_components.cpp', 'applications/components/pf_matrix/pf_components.cpp', 'applications/modules/powerflow/pf_factory_module.cpp']
PROPS['P26'] = dict(harnesses=[
    H('viol', 'p26_viol.cpp', rt=SIM, repo=PFN,
      cfg={'quick': [dict(mode=0, np=2, nb=3, br=2, top=0), dict(mode=0, np=3, nb=3, br=2, top=1, rev=1), dict(mode=1, np=2, nb=2, br=1, E=2), dict(mode=1, np=2, nb=3, br=2, top=2, E=1), dict(mode=2, np=2, nb=2, br=1, G=2, scale=1)],
           'thorough': [dict(mode=0, np=2, nb=3, br=2), dict(mode=1, np=3, nb=3, br=2, top=0, E=1), dict(mode=1, np=2, nb=2, br=1, E=2, flip=1), dict(mode=2, np=2, nb=3, br=2, top=0, G=1, scale=1), dict(mode=2, np=2, nb=2, br=1, G=2)]},
      covers=['voltage', 'no violation', 'overload', 'totals', 'listed'], bounds=NB + 'all real voltages, limits, flows, loads and ratings, up to E parallel lines per branch and G generators and loads per bus in every service state; some configurations on one fixed graph (top)')])

PFA = PFN + ['applications/modules/powerflow/pf_app_module.cpp']
PROPS['P18'] = dict(harnesses=[
    H('cont', 'p18_cont.cpp', rt=SIM, repo=PFA, stub=True,
      cfg={'quick': [dict(np=1, nb=2, br=1, E=2, nel=3), dict(np=2, nb=3, br=2, top=0, E=1, nel=2), dict(np=2, nb=3, br=2, top=0, kind=1, nel=2, allon=1, E=1), dict(np=2, nb=3, br=2, top=1, E=2, nel=1), dict(np=2, nb=3, br=2, top=0, E=1, nel=1, orient=1, rounds=2), dict(np=3, nb=3, br=3, top=0, E=1, nel=1)],
           'thorough': [dict(np=1, nb=2, br=1, E=3, nel=3), dict(np=2, nb=3, br=2, top=0, E=2, nel=2), dict(np=2, nb=3, br=2, top=0, kind=1, nel=3, E=1), dict(np=3, nb=3, br=2, top=1, E=2, nel=1), dict(np=2, nb=3, br=3, top=0, E=1, nel=2, orient=1, rounds=2), dict(np=3, nb=3, br=3, top=0, E=1, nel=2)]},
      covers=['branch', 'generator', 'cut off', 'listed twice'], bounds=NB + 'contingencies of up to nel generators or lines (elements may be named twice, in either orientation of the branch, or not exist), every initial service state, applied and undone rounds times; one contingency at a time; some configurations on one fixed graph (top)')])
PROPS['P14'] = dict(harnesses=[
    H('solve', 'p14_solve.cpp', rt=SIM, repo=PFA, stub=True,
      cfg={'quick': [dict(np=1, nb=2, br=1, rounds=2), dict(np=2, nb=3, br=2, it=2), dict(np=3, nb=3, br=3, it=2, top=0, rev=1), dict(np=1, nb=2, br=1, it=3, wide=1), dict(np=2, nb=3, br=2, lone=1, top=0), dict(np=1, nb=2, br=1, qlim=1, it=2), dict(np=2, nb=3, br=2, qlim=1, it=1, top=0, types=3), dict(np=1, nb=2, br=1, qlim=1, it=1, rounds=2), dict(np=1, nb=3, br=2, nl=1), dict(np=2, nb=3, br=2, nl=1, newton=1, top=1)],
           'thorough': [dict(np=1, nb=3, br=3, it=3, rounds=2), dict(np=3, nb=3, br=2, it=3), dict(np=4, nb=4, br=3, it=2, top=0), dict(np=2, nb=4, br=3, lone=1, top=0), dict(np=2, nb=3, br=2, qlim=1, it=2, types=3), dict(np=3, nb=3, br=2, qlim=1, it=2, top=1), dict(np=3, nb=3, br=2, nl=1, it=3), dict(np=2, nb=4, br=4, nl=1, newton=1, top=0)]},
      covers=['ghost', 'off-diagonal', 'iteration', 'converged', 'not converged', 'held at limit', 'within limits', 'library solver'], bounds=NB + 'every mix of load and voltage-controlled buses besides one reference bus, all real injections, reactive limits and tolerances, up to it iterations (per Q-limit round), every correction returned by the linear solver (angles up to 3 rad per step if wide, else 0.15) and every value of the norms; the math library is replaced by a model: a norm is an arbitrary non-negative number')])
PROPS['P12'] = dict(harnesses=[
    H('ser', 'p12_ser.cpp', repo=PF + ['applications/components/se_matrix/se_components.cpp'],
      cfg={'quick': [dict(mode=0, N=3), dict(mode=1, E=1, G=1, L=1, sym=1), dict(mode=1, E=2, G=1, L=1, sym=1, type=1), dict(mode=1, E=1, G=2, L=2, sym=1, type=2), dict(mode=1, E=1, G=1, L=1, sym=1, two=1, type=2), dict(mode=1, E=1, G=0, L=0, sym=1, shunt=0, xf=0), dict(mode=2, E=2, G=1, L=1, sym=1), dict(mode=2, E=1, G=0, L=0, sym=1, shunt=0), dict(mode=3, E=2, G=0, L=0, sym=1)],
           'thorough': [dict(mode=0, N=4), dict(mode=1, E=2, G=2, L=2, sym=1, type=2), dict(mode=1, E=3, G=1, L=0, sym=1, type=2), dict(mode=1, E=1, G=3, L=1, sym=1, type=2), dict(mode=1, E=1, G=1, L=1, sym=1, two=1), dict(mode=2, E=3, G=2, L=2, sym=1), dict(mode=3, E=3, G=0, L=0, sym=1)]},
      covers=['power flow', 'limits', 'lists', 'state estimation', 'admittance', 'collection'], bounds='two buses and one branch with up to E circuits, G generators and L loads (all four bus types, every service state, every real parameter), every history of up to one operation out of nine (two in some configurations) before the transfer, compared on all queries directly, after setting up again, after undoing the history and after a reset; collections of up to N indexed values of each of the seven types and any replaced content; network attachments (neighbours, exchange buffers, measurements and the data-collection pointer) are re-made after a transfer, as the network does')])
DSF = 'applications/modules/dynamic_simulation_full_y/'
P23L = [dict(mode=0, kind=k, sym=1) for k in range(5)] + [dict(mode=0, kind=0, tset=1, kset=1, lim=1), dict(mode=0, kind=0, tset=2, kset=1, lim=2), dict(mode=0, kind=1, lim=1), dict(mode=0, kind=1, lim=2, look=1), dict(mode=0, kind=2, lim=1, call=1), dict(mode=0, kind=2, lim=1, call=2), dict(mode=0, kind=2, lim=2, look=1), dict(mode=0, kind=3, lim=1, tset=2), dict(mode=0, kind=3, lim=2, tset=2), dict(mode=0, kind=4, lim=1, look=1)]
P23S = [dict(mode=0, kind=k, start=st, sym=1) for k in range(5) for st in (1, 2, 3) if (k, st) not in ((0, 3), (1, 1), (4, 1))] + [dict(mode=0, kind=0, start=3), dict(mode=0, kind=2, start=1, lim=2), dict(mode=0, kind=3, start=3, sym=1, lim=2)]
P23O = [dict(mode=1), dict(mode=2), dict(mode=3)] + [dict(mode=4, dec=d, pad=p, again=g) for d in (0, 1) for p in (0, 1) for g in (0, 1)] + [dict(mode=5), dict(mode=5, rev=1), dict(mode=5, dec=1), dict(mode=5, dec=1, rev=1)]
P23H = [dict(mode=6, K=3), dict(mode=7, K=2)]
P23HT = [dict(mode=6, K=5), dict(mode=7, K=4)]
PROPS['P23'] = dict(harnesses=[
    H('blk', 'p23_blk.cpp', repo=[DSF + x for x in ('cblock.cpp', 'dblock.cpp', 'model_classes/BackLashClass.cpp', 'model_classes/DBIntClass.cpp')],
      cfg={'quick': P23L + P23S + P23O + P23H,
           'thorough': P23L + P23S + P23O + P23HT + [dict(mode=0, kind=k, tset=3, kset=3, lim=2) for k in range(4)] + [dict(mode=0, kind=4, lim=1, K=2, tset=1), dict(mode=0, kind=2, lim=1, K=2, tset=1, kset=1), dict(mode=0, kind=3, lim=1, K=2, tset=1), dict(mode=2, K=3), dict(mode=4, n=4), dict(mode=4, n=5, dec=1), dict(mode=5, n=5), dict(mode=5, n=4, dec=1, rev=1)]},
      covers=['step', 'start', 'rejected', 'gain', 'rate', 'gates', 'piecewise', 'inverse', 'backlash', 'dead band'], bounds='one predictor and corrector step from every state (thorough: two); coefficients, time step, input and state symbolic within the limits (sym), and with symbolic limits for a few fixed time constants and gains; tables of 3 points (thorough: 5); 2-3 successive inputs for the blocks with memory (thorough: 4-5)'),
    H('dae', 'p23_blk.cpp', defs=['-DGP_DAE'], repo=[DSF + x for x in ('cblock.cpp', 'dblock.cpp')] + ['applications/modules/dynamic_simulation_dae/model_classes/' + x for x in ('BackLashClass.cpp', 'DBIntClass.cpp')],
      cfg={'quick': P23H, 'thorough': P23HT}, covers=['backlash', 'dead band'], bounds='the copies of the two memory blocks in the DAE module')])
P30M = [('tgov1', 0, [0]), ('gast', 1, [0]), ('hygov', 2, [0]), ('wsieg1', 3, [0, 1, 2]), ('sexs', 10, [0, 1]), ('exdc1', 11, [0, 1, 2, 8, 4]), ('ieeet1', 12, [0, 1, 2, 4])]
P30C = [dict(model=m, var=v, flat=f) for _, m, vs in P30M for v in vs for f in (1, 0)] + [dict(model=m, dflt=1, flat=f) for m in (0, 1, 2) for f in (1, 0)]
P30C += [dict(model=13, var=v, flat=1, lr=l) for v in (0, 1, 2, 4) for l in (0, 1)] + [dict(model=13, var=0, flat=0, lr=1), dict(model=13, var=1, flat=0), dict(model=13, var=2, flat=0), dict(model=13, var=4, flat=0, lr=1)]
P30C += [dict(model=14, var=v, flat=1) for v in (0, 1, 2, 4, 8, 16, 32)] + [dict(model=14, var=0, flat=0, hi=2), dict(model=14, var=12, flat=0), dict(model=14, var=17, flat=0, hi=2), dict(model=14, var=34, flat=0, lo=2, hi=4)]
PROPS['P30'] = dict(harnesses=[
    H('ctl', 'p30_ctl.cpp', inc=[DSF + 'base_classes', DSF + 'model_classes', DSF[:-1]], repo=[DSF + x for x in ('cblock.cpp', 'dblock.cpp', 'base_classes/base_governor_model.cpp', 'base_classes/base_exciter_model.cpp')] + [DSF + 'model_classes/%s.cpp' % n for n in [x[0] for x in P30M] + ['esst1a', 'esst4b']] + ['component/data_collection.cpp'],
      cfg={'quick': P30C, 'thorough': P30C + [dict(c, K=2) for c in P30C if c['flat'] or c['model'] < 13] + [dict(model=13, var=v, flat=0, lr=l) for v in (0, 1, 2, 4) for l in (0, 1)] + [dict(model=14, var=v, flat=0) for v in (0, 1, 2, 16, 32)]}, covers=['flat', 'response'], bounds='one predictor and corrector step (thorough: two)')])
PROPS['P28'] = dict(harnesses=[
    H('lone', 'p18_cont.cpp', rt=SIM, repo=PFA, stub=True,
      cfg={'quick': [dict(p28=1, np=2, nb=3, br=2, E=1, t4=1, rounds=2), dict(p28=1, np=3, nb=3, br=1, E=2), dict(p28=1, np=2, nb=3, br=2, E=1)],
           'thorough': [dict(p28=1, np=3, nb=3, br=2, E=2), dict(p28=1, np=2, nb=4, br=3, E=1, t4=1, rounds=2), dict(p28=1, np=3, nb=3, br=3, E=1)]},
      covers=['lone', 'connected', 'no branches'], bounds=NB + 'every service state of the lines, buses isolated in the input data (t4), marking and clearing rounds times; checked on the process that owns the bus and on its ghosts')])

SE = YM + ['applications/components/se_matrix/se_components.cpp']
PROPS['P19'] = dict(harnesses=[
    H('se', 'p19_se.cpp', repo=SE,
      cfg={'quick': [dict(bm=2, br=1), dict(bm=1, nb=3, br=3, xf=0, shunt=1), dict(bm=2, br=2, nb=3, iso=1, xf=0, bt=1), dict(bt=15, E=1, shunt=2), dict(bt=15, E=2, stat=1, xf=1), dict(bt=16, sym=0), dict(bt=32, sym=0), dict(bt=63, sym=0, iso=1, xf=0), dict(bt=48, sym=0, stat=1, E=2, xf=1)],
           'thorough': [dict(bm=3, nb=3, br=3, xf=0), dict(bm=3, nb=3, br=3, iso=1, xf=0, sym=0, bt=3), dict(bt=15, E=2, stat=1), dict(bt=63, sym=0, E=2, stat=1), dict(bm=2, bt=15, br=1, E=2, stat=1, xf=0)]},
      covers=['VM', 'VA', 'PI', 'QI', 'PIJ', 'QIJ', 'PJI', 'QJI', 'IIJ', 'IJI', 'isolated', 'reference'], bounds='all real states and measurement values; impedances, charging, tap and phase shift symbolic except for current magnitudes; nb buses of every type, br branches of E elements')])

PROPS['P25'] = dict(harnesses=[
    H('stat', 'p25_stat.cpp', rt=SIM, repo=['parallel/communicator.cpp', 'parallel/distributed.cpp'],
      cfg={'quick': [dict(kind=0, np=2, nr=1, nc=3), dict(kind=0, np=1, nr=2, nc=2, br=1, tags=0), dict(kind=0, np=3, nr=1, nc=3, again=1, cmask=1), dict(kind=0, np=2, nr=102, nc=2, hot=1, cmask=2, X=4), dict(kind=1, np=2, nr=1, nc=3, bnd=3, br=1), dict(kind=1, np=2, nr=2, nc=2, bnd=1, tags=0), dict(kind=1, np=2, nr=102, nc=2, hot=1, cmask=2, bnd=2), dict(kind=1, np=1, nr=1, nc=4, cmask=1), dict(kind=2, np=3, nr=2, nc=3), dict(kind=2, np=2, nr=101, nc=2, hot=1, br=1, again=0), dict(kind=3, np=2, nr=2, nc=3), dict(kind=3, np=3, nr=3, nc=2, again=1)],
           'thorough': [dict(kind=0, np=2, nr=1, nc=5), dict(kind=0, np=3, nr=2, nc=3, br=1), dict(kind=1, np=2, nr=1, nc=4, bnd=3, again=2), dict(kind=1, np=2, nr=2, nc=3, bnd=1), dict(kind=2, np=3, nr=2, nc=4, again=1), dict(kind=3, np=3, nr=3, nc=3), dict(kind=0, np=3, nr=203, nc=2, hot=1, cmask=2, X=6)]},
      covers=['mean', 'few samples', 'base case', 'masked sample', 'extreme outside the base case', 'base case extreme', 'masked extreme', 'count', 'some counted', 'column sum', 'second report', 'written elsewhere'],
      bounds='np processes, nr rows and nc columns (more than 100 rows in two or three blocks: symbolic values in the rows at the block borders), all real values, all masks and thresholds, every process writing each column, a column rewritten between two reports')])
PROPS['P29'] = dict(harnesses=[
    H('stream', 'p29_stream.cpp',
      cfg={'quick': [dict(first=0, N=5), dict(first=1), dict(first=0, second=1, N=3), dict(first=1, second=0, N=3, miss=1), dict(first=0, second=0, N=3), dict(first=1, second=1)],
           'thorough': [dict(first=0, N=9), dict(first=0, second=0, N=5), dict(first=1, second=0, N=5, miss=1)]},
      covers=['file', 'strings', 'line', 'empty line', 'end', 'last line without newline', 'missing', 'reopened', 'partly read'],
      bounds='files of up to N arbitrary characters (including carriage returns and zero bytes), lists of up to 3 strings of up to 2 characters, two sources one after the other, the first read to any point')])

RAWP = NET + ['stream/input_stream.cpp', 'parser/block_parsers/*.cpp']
P20Q = [dict(kind=0, cuts=15), dict(kind=0, sep=2, cuts=14, ver=34), dict(kind=0, symbase=1, ver=35, sep=1, np=2), dict(kind=1, n=2), dict(kind=1, n=1, cuts=15, ver=35), dict(kind=1, cuts=30, sep=1), dict(kind=1, cuts=6, sep=2), dict(kind=2, n=3), dict(kind=2, cuts=15), dict(kind=3, n=2), dict(kind=3, n=1, cuts=15), dict(kind=3, n=1, cuts=31, ver=34), dict(kind=3, n=1, cuts=15, ver=35), dict(kind=3, n=2, sep=2, ver=35),
        dict(kind=4, n=2), dict(kind=4, n=1, cuts=31), dict(kind=4, n=1, cuts=15, ver=34), dict(kind=4, n=2, cuts=6, sep=1, ver=35, np=2)]
P20Q += [dict(kind=5, full=1, n=1, ver=v, symbase=v % 2) for v in (33, 34, 35)] + [dict(kind=5, n=1, cuts=23, ver=33), dict(kind=5, n=1, cuts=9, sep=2, ver=35)] + [dict(kind=6, ver=33, full=1, n=1), dict(kind=6, ver=34, n=2), dict(kind=6, ver=35, n=2), dict(kind=6, cuts=6, sep=1, n=1, symbase=1)] + [dict(kind=7, n=1, cuts=15, ver=v) for v in (33, 34, 35)] + [dict(kind=7, n=2, ver=35), dict(kind=8, n=3, cuts=6), dict(kind=9, n=2), dict(kind=9, n=2, ver=34, cuts=6), dict(kind=10, n=1, cuts=6), dict(kind=10, n=1, ver=35)]
PROPS['P20'] = dict(harnesses=[
    H('raw', 'p20_raw.cpp', rt=SIM, repo=RAWP, defs=['-include', V_ + '/harness/gpstream.h'],
      cfg={'quick': P20Q, 'thorough': P20Q + [dict(kind=1, n=4), dict(kind=3, n=3), dict(kind=3, n=2, cuts=9), dict(kind=4, n=3), dict(kind=5, n=2, ver=34), dict(kind=6, n=1, full=1, ver=34), dict(kind=6, n=1, full=1, ver=35), dict(kind=10, n=2, ver=35), dict(kind=7, n=3), dict(kind=9, n=3, ver=35)]},
      covers=['bus', 'device', 'repeated device', 'unknown bus', 'line', 'parallel branch', 'reversed record', 'transformer', 'own base', 'winding voltage in kV', 'three windings', 'winding out of service', 'transformer out of service', 'switched shunt', 'area', 'correction table', 'empty table', 'multi-section line', 'unknown branch', 'short record', 'owner without fraction'],
      bounds='whole files of versions 33, 34 and 35 with 3 buses, read through the public parser; up to n records of one kind (plus a line and a two-winding transformer with full) on every choice of buses, every record length (cuts 1), comment lines (2), trailing remarks (4), blanks before the terminators (8), buses given by name (16), comma, comma and blank or blank separated (sep); all real field values and two-digit integers; case base symbolic with symbase; np processes')])
