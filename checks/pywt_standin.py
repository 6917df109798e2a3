"""Stand-in for PyWavelets (not installed here): continuous wavelet transform with complex Morlet wavelets.

Follows pywt's documented algorithm (pywt._cwt.cwt, method 'conv'): the conjugated wavelet is integrated over [-8, 8] on 2**precision
points, sampled at the scale, convolved with the signal (zero padded), differentiated, multiplied with -sqrt(scale) and cropped."""
import math


def make(native, linear):
    """native: numpy; linear: lifts a linear function of numeric arrays to those of the harness"""
    class ContinuousWavelet:
        def __init__(self, name, dtype=float):
            if not name.startswith("cmor"):
                raise ValueError(f"Invalid wavelet name {name!r}.")
            b, c = name[4:].split("-")
            self.name, self.bandwidth_frequency, self.center_frequency = name, float(b), float(c)
            self.lower_bound, self.upper_bound, self.complex_cwt = -8., 8., True

        def integrated(self, precision):
            t = native.linspace(self.lower_bound, self.upper_bound, 2 ** precision)
            psi = native.exp(-t ** 2 / self.bandwidth_frequency) * native.exp(2j * math.pi * self.center_frequency * t) / math.sqrt(math.pi * self.bandwidth_frequency)
            return native.cumsum(native.conj(psi)) * (t[1] - t[0]), t

    def wavelet_of(w):
        return w if isinstance(w, ContinuousWavelet) else ContinuousWavelet(w)

    def scale2frequency(wavelet, scale, precision=8):
        return wavelet_of(wavelet).center_frequency / native.asarray(scale, float)

    def transform(data, scales, w):
        n = data.shape[-1]
        ipsi, x = w.integrated(10)
        step, span = x[1] - x[0], x[-1] - x[0]
        out = []
        for s in scales:
            j = native.arange(s * span + 1) / (s * step)
            j = j.astype(int)
            if j[-1] >= ipsi.size:
                j = native.extract(j < ipsi.size, j)
            k = ipsi[j][::-1]
            # convolution, difference and cropping, all linear: coef[t] = -sqrt(s) sum_i data[i] (k[d+1] - k[d]), d = t + lead - i
            lead = (n + k.size - 2 - n) / 2.
            a = int(math.floor(lead)) if lead > 0 else 0
            kk = native.concatenate([native.zeros(n + 1), k, native.zeros(2 * n + 2)])
            d = native.arange(n)[None, :] + a - native.arange(n)[:, None] + n + 1
            out.append(native.dot(data, -math.sqrt(s) * (kk[d + 1] - kk[d])))
        return native.stack(out)

    transform = linear(transform)

    def cwt(data, scales, wavelet, sampling_period=1., method="conv", axis=-1, *, precision=10):
        w = wavelet_of(wavelet)
        if axis not in (-1, data.ndim - 1):
            raise NotImplementedError("axis")
        scales = native.atleast_1d(native.asarray(scales, float))
        return transform(data, [float(s) for s in scales], w), scale2frequency(w, scales) / sampling_period

    import types
    m = types.ModuleType("pywt")
    m.ContinuousWavelet, m.cwt, m.scale2frequency, m.__version__ = ContinuousWavelet, cwt, scale2frequency, "1.1.0"
    return m
