"""The Python fallback of Theano's convolution imports names that have moved in
newer SciPy versions.  This provides them, so that gated linear units can be
run with the Python backend.  It concerns Theano only, not the code under test.
"""


def install():
    import theano.tensor.nnet.abstract_conv as conv
    if getattr(conv, 'imported_scipy_signal', True):
        return
    from scipy.signal import convolve2d
    conv._valfrommode = lambda mode: mode
    conv._bvalfromboundary = lambda boundary: boundary
    conv._convolve2d = lambda a, b, flip, mode, boundary, fill: convolve2d(a, b, mode=mode, boundary=boundary, fillvalue=fill)
    conv.imported_scipy_signal = True
