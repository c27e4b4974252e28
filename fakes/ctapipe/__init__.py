"""Stand-in for ctapipe 0.8 (not installable offline): the parts CHECLabPy
uses, with the semantics of that version."""
__version__ = '0.8.0'
