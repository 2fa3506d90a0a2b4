from symx import core as _core


def unsupported(what):
    raise _core.EngineError("scikit-learn model: %s is not modelled" % (what,))


def module_getattr(mod):
    def __getattr__(name):
        if name.startswith("__"):
            raise AttributeError(name)
        unsupported("%s.%s" % (mod, name))

    return __getattr__
