from vlib import cbmc, core, ll, trees
LEVEL = 'other'


def run(r, tier):
    J = cbmc.Job
    jobs = [
        J('c04.c', defines={'HARD': 1, 'NN': 3, 'NT': 2}, unwind=8, key='hard'),
        J('c04.c', defines={'SOFT': 2, 'NN': 2, 'NT': 2}, unwind=14, key='soft'),
        J('c04.c', defines={'SOFT': 3, 'NN': 2, 'NT': 1}, unwind=14, key='soft'),
        J('c04.c', defines={'REGRESS': 1, 'NN': 3, 'NT': 2, 'NL': 3}, unwind=14, key='regress'),
        J('c04.c', defines={'REGRESS': 1, 'NN': 3, 'NT': 1, 'NL': 3}, unwind=14, key='regress'),
        J('c04.c', defines={'REJECT': 1}, unwind=35, key='reject'),
    ]
    r.bound('tables: hard 3 nodes, soft 2 nodes, regression 3 nodes, 2 trees, 3 leaves, 1..3 features, up to 3 classes, all field values that keep the table well formed')
    if tier == 'thorough':
        jobs += [
            J('c04.c', defines={'HARD': 1, 'NN': 4, 'NT': 3, 'NL': 4, 'MAXC': 4}, unwind=10, timeout=3000, key='hard'),
            J('c04.c', defines={'SOFT': 3, 'NN': 3, 'NT': 2}, unwind=14, timeout=3000, key='soft'),
            J('c04.c', defines={'REGRESS': 1, 'NN': 4, 'NT': 3, 'NL': 4}, unwind=18, timeout=3000, key='regress'),
        ]
        r.bound('thorough: hard 4 nodes/3 trees/4 leaves/4 classes, soft 3 nodes/2 trees/3 classes, regression 4 nodes/3 trees/4 leaves')
    r.bound('lengths: every int8 feature length, int32/int8 output length, class count and leaf type')
    r.assume('well formed: children are forward (offset >= 1) or leaf references in range; majority leaves hold a class below the class count')
    r.assume('malloc succeeds; float arithmetic is IEEE-754 as modelled bit-precisely by CBMC')
    r.bound('large tables: 40000 nodes, jumps up to 30000, leaf numbers up to 32767, any features')
    core.all_of(r, lambda: ll.run_jobs(r, trees.wide_jobs([0, 1, 2])), lambda: cbmc.run_jobs(r, jobs))
