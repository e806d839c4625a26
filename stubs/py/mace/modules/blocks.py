class _Block:
    def __init__(self, **k): self.__dict__.update(k)
class RealAgnosticInteractionBlock(_Block): pass
class RealAgnosticDensityInteractionBlock(_Block): pass
class RealAgnosticResidualInteractionBlock(_Block): pass
class RealAgnosticDensityResidualInteractionBlock(_Block): pass
class RealAgnosticAttResidualInteractionBlock(_Block): pass
class AgnosticNonlinearInteractionBlock(_Block): pass
