HOOKS = None
NA = []
