__version__ = '1.6.4'
