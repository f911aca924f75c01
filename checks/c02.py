from . import pd
EXPLAIN = ('Abstract interpretation (value numbering + convex polyhedra, loops cut at an inductive class invariant) of every mutator of PartitionedDataset from an arbitrary state: '
           'per path through one iteration, the partition of the given point, of an arbitrary other point, the sizes and the ValueError behaviour are decided over all orderings of the point position and both boundaries.')
ASSUME = ['indexes are unique and the given ones exist in the data set', 'arithmetic on sizes is exact']
RULES = ('partition', 'only points already', 'a point already', 'the given point reaches', 'all other points', 'the three partitions', 'flush', 'clear puts', 'every given', 'the move can', 'a new data set', 'move', 'clear', 'views', 'construction')
FLOOR = 15


def run(rep):
    pd.run_filtered(rep, RULES)
