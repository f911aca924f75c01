from . import pd
EXPLAIN = ('Abstract interpretation of the labeling, inference, flush and clear operations of PartitionedDataset from an arbitrary invariant state: the k-th stored label must be the label given to the point in the k-th labeled row at normal exit of every mutator; LabeledSet concatenation and selection are checked row by row.')
ASSUME = ['indexes are unique and the given ones exist in the data set', 'arithmetic on sizes is exact']
RULES = ('stored labels', 'training rows', 'the last training set', 'clear forgets', 'concatenation', 'selection', 'training_set', 'LabeledSet')
FLOOR = 10


def run(rep):
    pd.run_filtered(rep, RULES)
