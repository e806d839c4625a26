import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib"); sys.path.insert(0, __file__.rsplit("/", 1)[0])
from vlib import *
import C09
main(lambda c: C09.run(c, "force"), "C10")
