import fakemace
def remove_pt_head(model, head_to_keep=None): return fakemace.remove_pt_head(model, head_to_keep)
