"""Which specification stages decide which properties, and their bounds per tier."""
LEVEL = 'model_checking'

STAGES = {
    'alloc': dict(kind='R', module='Allocator', cfg='Allocator.cfg', sut='alloc',
                  props=['C01', 'C02', 'C03', 'C04', 'C10'], consts={'MaxHandles': 4}, thorough={'MaxHandles': 5},
                  workers=6),
    'storage_plain': dict(kind='R', module='Storage', cfg='Storage.cfg', sut='storage_plain',
                          interp=(40, ['Vec/0', 'Dense/0', 'Hash/0', 'Dense/1']), props=['C06', 'C07', 'C08', 'C10', 'C11', 'C23', 'C25'],
                          consts={'NI': 4, 'Tracked': 'FALSE'}, thorough={'NI': 5}),
    'storage_tracked': dict(kind='R', module='Storage', cfg='Storage.cfg', sut='storage_tracked',
                            interp=(40, ['FVec/0', 'FDense/0', 'FHash/0', 'FDense/1']), props=['C06', 'C07', 'C09', 'C10', 'C11', 'C23', 'C25'],
                            consts={'NI': 3, 'Tracked': 'TRUE'}, thorough={'NI': 4},
                            tier={'thorough': dict(maxedges=600000, walks=2000)}),
    'world': dict(kind='R', module='World', cfg='World.cfg', sut='world',
                  interp=(25, ['Vec+FDense/w', 'Dense+FHash/g', 'Hash+FVec/w', 'Vec+Dense/g']), props=['C02', 'C03', 'C07', 'C13', 'C14', 'C23', 'C25'],
                  consts={'MaxH': 3, 'NV': 1, 'Tracked': 'FALSE'}, thorough={'NV': 2},
                  tier={'quick': dict(maxedges=150000), 'thorough': dict(maxedges=800000, walks=2000)}),
    'world_tracked': dict(kind='R', module='World', cfg='World.cfg', sut='world_tracked',
                          props=['C07', 'C09', 'C13', 'C14', 'C23'],
                          consts={'MaxH': 2, 'NV': 1, 'Tracked': 'TRUE'}, thorough={'NV': 2},
                          tier={'thorough': dict(maxedges=800000, walks=2000)}),
    'join': dict(kind='R', module='Join', cfg='Join.cfg', sut='join', interp=(24, ['id/2', 'edge/2', 'id/1', 'edge/1']), props=['C09', 'C10', 'C11', 'C12', 'C25'],
                 tier={'quick': dict(maxedges=50000), 'thorough': dict(maxedges=0, walks=2000)}),
    'rwres': dict(kind='R', module='RwRes', cfg='RwRes.cfg', sut='rwres', props=['C17'],
                  tier={'quick': dict(maxedges=100000), 'thorough': dict(maxedges=0, walks=5000)}),
    'reg_set': dict(kind='R', module='Registry', cfg='Registry.cfg', sut='reg_set', props=['C07', 'C14', 'C15', 'C18', 'C23'],
                    consts={'World': 'FALSE'}, thorough={'NSlots': 3},
                    tier={'thorough': dict(maxedges=400000, walks=2000)}),
    'reg_world': dict(kind='R', module='Registry', cfg='Registry.cfg', sut='reg_world', props=['C07', 'C14', 'C15', 'C18', 'C23'],
                      consts={'World': 'TRUE'}, thorough={'NSlots': 3},
                      tier={'thorough': dict(maxedges=400000, walks=2000)}),
    'anyset': dict(kind='R', module='AnySet', cfg='AnySet.cfg', sut='anyset', props=['C07', 'C16', 'C23', 'C25'],
                   consts={'Cloning': 'FALSE', 'NLive': 2},
                   tier={'quick': dict(maxedges=150000), 'thorough': dict(maxedges=0, walks=2000)}),
    'anyclone': dict(kind='R', module='AnySet', cfg='AnySet.cfg', sut='anyclone', props=['C07', 'C16', 'C23', 'C25'],
                     consts={'Cloning': 'TRUE', 'NLive': 1},
                     tier={'quick': dict(maxedges=150000), 'thorough': dict(maxedges=0, walks=2000)}),
    'systems': dict(kind='R', module='Systems', cfg='Systems.cfg', sut='systems', props=['C19', 'C20', 'C21', 'C23'],
                    consts={'Plize': 'FALSE'}, thorough={'NCheck': 4, 'NRun': 5},
                    tier={'thorough': dict(maxedges=1500000, walks=5000)}),
    'parallelize': dict(kind='R', module='Systems', cfg='Systems.cfg', sut='plize', props=['C19', 'C20', 'C21', 'C22', 'C23'],
                        consts={'Plize': 'TRUE'}, thorough={'NCheck': 4, 'NRun': 4, 'NMacro': 12},
                        tier={'thorough': dict(maxedges=1500000, walks=5000)}),
    'alloc_deep': dict(kind='R', module='Allocator', cfg='Allocator.cfg', sut='alloc', props=['C01', 'C02', 'C03', 'C04'],
                       consts={'MaxHandles': 7, 'MaxUsed': 2, 'WithForeign': 'FALSE'}, thorough={'MaxHandles': 6, 'MaxUsed': 3}, workers=6),
    'alloc_ind': dict(kind='M', module='AllocatorInd', cfg='AllocatorInd.cfg', props=['C01', 'C02', 'C03', 'C04'], workers=4,
                      thorough={'N': 4}),
    'conc_model': dict(kind='M', module='AllocatorConc', cfg='AllocatorConc.cfg', props=['C05'], workers=4,
                       thorough={'NOps': 3}),
    'conc_model3': dict(kind='M', module='AllocatorConc', cfg='AllocatorConc.cfg', props=['C05'], workers=4,
                        consts={'Procs': '{p1,p2,p3}', 'NOps': 1}),
    'conc_progress': dict(kind='M', module='AllocatorConc', cfg='AllocatorConcLive.cfg', props=['C05'], workers=4, thorough_only=True),
    'conc_schedules': dict(kind='T', module='ConcTrace', cfg='ConcTrace.cfg', props=['C05'], wl='conc_schedules', builds=['hooked'],
                           soft=True, traces=1, size=150, tier={'thorough': dict(traces=4, size=1200)}),
    'conc_stress': dict(kind='T', module='ConcTrace', cfg='ConcTrace.cfg', props=['C05'], wl='conc_stress', builds=['dev', 'release'],
                        traces=1, size=3000, tier={'thorough': dict(traces=4, size=20000)}),
    'sysrun': dict(kind='M', module='SysRun', cfg='SysRun.cfg', props=['C20', 'C21'], workers=4, consts={'NRes': 0}, thorough={'NMax': 5}),
    'sysrun_conflicts': dict(kind='M', module='SysRun', cfg='SysRun.cfg', props=['C19', 'C20'], workers=4, consts={'NMax': 3}, thorough={'NMax': 4}),
    'sysrun_panics': dict(kind='M', module='SysRun', cfg='SysRun.cfg', props=['C23'], workers=4, consts={'NRes': 0, 'Panics': 'TRUE'}, thorough={'NMax': 5}),
    'systrace': dict(kind='T', module='SysTrace', cfg='SysTrace.cfg', props=['C19', 'C20', 'C21', 'C22', 'C23'], wl='sys', builds=['dev'],
                     traces=1, size=300, tier={'thorough': dict(traces=6, size=2000, builds=['dev', 'release'])}),
    'scale_entities': dict(kind='T', module='ScaleTrace', cfg='ScaleTrace.cfg', props=['C01', 'C02', 'C03', 'C04'],
                           wl='scale_entities', builds=['dev'], traces=1, size=250,
                           tier={'thorough': dict(traces=6, size=1500, builds=['dev', 'release'])}),
    'scale_storages': dict(kind='T', module='ScaleTrace', cfg='ScaleTrace.cfg', props=['C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C23'],
                           wl='scale_storages', builds=['dev'], traces=1, size=250,
                           tier={'thorough': dict(traces=6, size=1500, builds=['dev', 'release'])}),
    'scale_worlds': dict(kind='T', module='ScaleTrace', cfg='ScaleTrace.cfg',
                         props=['C02', 'C03', 'C07', 'C08', 'C09', 'C10', 'C11', 'C13', 'C14', 'C23'],
                         wl='scale_worlds', builds=['dev'], traces=1, size=500,
                         tier={'thorough': dict(traces=6, size=3000, builds=['dev', 'release'])}),
    'capacity': dict(kind='T', module='LimitTrace', cfg='LimitTrace.cfg', props=['C01', 'C02', 'C03', 'C04'], wl='capacity',
                     builds=['dev'], traces=1, size=60, tier={'thorough': dict(traces=6, size=400, builds=['dev', 'release'])}),
    'lifetimes': dict(kind='T', module='LimitTrace', cfg='LimitTrace.cfg', props=['C02', 'C04'], wl='lifetimes',
                      builds=['release'], traces=1, size=60, tier={'thorough': dict(traces=2, size=400)}),
    'types': dict(kind='T', module='TypesTrace', cfg='TypesTrace.cfg', props=['C06', 'C07', 'C08', 'C13', 'C14', 'C15', 'C16', 'C23'], wl='types',
                  builds=['dev', 'release'], traces=1, size=400, tier={'thorough': dict(traces=8, size=1500, builds=['dev', 'release'])}),
    'app': dict(kind='T', module='AppTrace', cfg='AppTrace.cfg',
                props=['C02', 'C03', 'C05', 'C10', 'C11', 'C13', 'C14', 'C15', 'C18', 'C19', 'C20', 'C22'],
                wl='app', builds=['dev'], traces=1, size=200, tier={'thorough': dict(traces=6, size=1500, builds=['dev', 'release'])}),
    'holds': dict(kind='T', module='HoldTrace', cfg='HoldTrace.cfg', props=['C15'], wl='holds', builds=['dev', 'release'],
                  traces=1, size=2000, tier={'thorough': dict(traces=6, size=10000)}),
    'threads': dict(kind='P', module='Threads', cfg='Threads.cfg', props=['C24'], programs='thread_sources', workers=2),
    'borrows': dict(kind='P', module='Borrows', cfg='Borrows.cfg', props=['C25'], programs='borrow_sources', run=True, workers=4, miri=1000,
                    thorough={'MaxChain': 4}, tier={'thorough': dict(miri=8000)}),
}

ASSUMPTIONS = {
    '*': [],
    'C01': ['fewer than 2^31 reuses of one index, at most 2^24 indexes (the bit set library\'s limit)'],
}

NOT_APPLICABLE = {}
HOOKS = {'guard': '--cfg goggles_verif (rustc flag)', 'enable': 'RUSTFLAGS="--cfg goggles_verif" cargo build, done by bin/check.py for the stage conc_schedules only', 'source_commits': ['db1f73a04eb56376fc65693894c5aa052fb806c3']}
NOTES = {}
