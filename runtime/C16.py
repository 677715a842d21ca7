from .C15 import *
