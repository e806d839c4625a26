from . import o3
