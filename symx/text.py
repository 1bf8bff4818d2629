"""Texts of exceptions."""
import sys
import traceback


def trace():
    """The text of the current exception, also of one that cannot be printed."""
    try:
        return traceback.format_exc()
    except BaseException:
        kind, _, tb = sys.exc_info()
        return ''.join(traceback.format_tb(tb)) + 'an exception that cannot be printed'
