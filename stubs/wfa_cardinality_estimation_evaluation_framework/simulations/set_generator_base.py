class SetGeneratorBase(object):
    pass
