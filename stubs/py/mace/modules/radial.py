class ZBLBasis:
    pass
class OtherRepulsion:
    pass
