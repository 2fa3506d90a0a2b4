class NotFittedError(ValueError, AttributeError):
    pass
