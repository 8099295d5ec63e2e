import builtins
BUILTINS = set(dir(builtins))
