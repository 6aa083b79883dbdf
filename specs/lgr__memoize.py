# Reference behaviour of lgr.memoize (parsed by the checks, never executed).
from __future__ import unicode_literals
import functools


class MethodAttributeMemoizer(object):

    def __init__(self, attribute_name):
        self.attribute_name = attribute_name

    def __call__(self, func):

        @functools.wraps(func)
        def wrapped_f(*args, **kwargs):
            obj = args[0]
            try:
                cache = obj.__cache
            except AttributeError:
                cache = obj.__cache = {}
            key = (str(func.__name__), str(getattr(obj, self.attribute_name)), str(args[1:]) + str(kwargs.items()))
            if key not in cache:
                cache[key] = func(*args, **kwargs)
            return cache[key]
        return wrapped_f
