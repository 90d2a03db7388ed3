class LaplaceMechanism(object):
    pass
