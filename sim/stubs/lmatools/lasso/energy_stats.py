from lmatools import missing_names

__getattr__ = missing_names(__name__)
