from . import pd
EXPLAIN = ('Abstract interpretation of every mutator and lookup of PartitionedDataset from an arbitrary state satisfying the class invariant (row r holds the data, index and index-to-row entry of one original point); every path must re-establish it for the touched and for an arbitrary other row, and every lookup must read the rows of the asked points.')
ASSUME = ['indexes are unique and the given ones exist in the data set', 'arithmetic on sizes is exact']
RULES = ('each row stays', 'the index-to-row map', 'partition views', 'lookups', 'clear orders', 'the constructor keeps', 'partition sizes agree')
FLOOR = 10


def run(rep):
    pd.run_filtered(rep, RULES)
