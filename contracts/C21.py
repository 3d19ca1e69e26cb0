"""C21"""
from engine.run import unit
TUS = []
DRIVER = "C21.cpp"
SOURCES = None
DRIVER_S = 60
BOUNDED = ""
ASSUMPTIONS = []
TRUSTED = []
