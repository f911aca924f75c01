from . import pd
EXPLAIN = ('Row-wise abstract interpretation of predict_user_labels over an arbitrary partition state: the label at position k is a term in the stored labels (labeled rows) or in the learner prediction of the same row (others), paired with the index of the same row; the returned arrays must not alias dataset storage.')
ASSUME = ['indexes are unique and the given ones exist in the data set', 'arithmetic on sizes is exact']
RULES = ('user labels', 'each predicted', 'the result is a snapshot', 'predicted labels', 'predict_user_labels')
FLOOR = 4


def run(rep):
    pd.run_filtered(rep, RULES)
