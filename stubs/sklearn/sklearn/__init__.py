"""A model of the part of scikit-learn that causalnex touches, able to carry symbolic numbers."""
__version__ = "1.0.2"
