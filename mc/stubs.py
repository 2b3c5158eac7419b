"""Deterministic, fast environment for the code under test.

Only third party packages are touched, never rf itself.
"""


import copy


def install():
    import obspy.taup
    import obspy.taup.tau
    orig = obspy.taup.TauPyModel
    cache = {}

    class TauPyModel(orig):
        """TauPyModel which is loaded only once per model name"""

        def __new__(cls, *args, **kwargs):
            key = (repr(args), repr(sorted(kwargs.items())))
            if key not in cache:
                cache[key] = (orig.__new__(cls), [])
            obj, done = cache[key]
            obj._mc_done = done
            return obj

        def __init__(self, *args, **kwargs):
            if not self._mc_done:
                orig.__init__(self, *args, **kwargs)
                self._mc_done.append(1)
                self._mc_tt = {}

        def get_travel_times(self, *args, **kwargs):
            key = repr((args, sorted(kwargs.items())))
            if key not in self._mc_tt:
                self._mc_tt[key] = orig.get_travel_times(
                    self, *args, **kwargs)
            return copy.copy(self._mc_tt[key])

    TauPyModel.__name__ = 'TauPyModel'
    obspy.taup.TauPyModel = TauPyModel
    obspy.taup.tau.TauPyModel = TauPyModel
