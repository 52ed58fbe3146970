class BackendRep(object):
    def run(self, inputs, **kwargs): return (None,)
class Device(object):
    def __init__(self, d): self.device = d
class Backend(object):
    @classmethod
    def prepare(cls, model, device="CPU", **kwargs):
        from .. import checker
        checker.check_model(model)
        return None
