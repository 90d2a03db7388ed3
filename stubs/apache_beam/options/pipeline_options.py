class PipelineOptions(object):
    def __init__(self, flags=None, **kw):
        self.kw = kw

    def get_all_options(self):
        return dict(self.kw)
