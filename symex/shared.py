'''Common to the worker processes of one check (imported before they fork).'''
import multiprocessing

# set once a case needed the normal form of masked sums (see solver.query):
# the other cases then start with it
UNWRAP = multiprocessing.get_context('fork').Value('i', 0)
