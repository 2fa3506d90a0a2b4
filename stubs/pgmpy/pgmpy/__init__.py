"""A model of the part of pgmpy that causalnex touches (0.1.12 conventions): exact inference by enumeration and
count-based estimators over tables whose entries may be symbolic."""
__version__ = "0.1.12"
