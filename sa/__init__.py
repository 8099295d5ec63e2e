from . import torchops  # noqa: F401  (load order)
