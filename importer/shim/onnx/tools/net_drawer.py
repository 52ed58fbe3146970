def GetPydotGraph(*a, **k): raise NotImplementedError
def GetOpNodeProducer(*a, **k): raise NotImplementedError
OP_STYLE = {}
