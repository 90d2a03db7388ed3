class VectorOfCounts(object):
    pass
