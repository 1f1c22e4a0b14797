"""Properties that are not claimed, and the hooks."""
EXTRA = []
NA = {}
HOOKS = None
