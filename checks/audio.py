"""encoded sound files and the ways their bytes arrive"""
import io
import random
import threading

import numpy as np

FORMATS = [
    ('WAV', 'PCM_16'), ('WAV', 'PCM_16'), ('WAV', 'PCM_24'), ('WAV', 'PCM_U8'),
    ('WAV', 'FLOAT'), ('WAV', 'PCM_32'), ('WAV', 'DOUBLE'),
    ('AIFF', 'PCM_16'), ('AIFF', 'PCM_24'), ('WAV', 'MS_ADPCM'),
    ('WAV', 'IMA_ADPCM'), ('AU', 'PCM_16'),
    ('FLAC', 'PCM_16'), ('FLAC', 'PCM_24'), ('FLAC', 'PCM_16'),
    ('OGG', 'VORBIS'), ('OGG', 'VORBIS')]
RATES = [11025, 11025, 16000, 22050, 44100, 48000, 96000]


def signal(n, channels, seed, smooth=False):
    rng = np.random.RandomState(seed)
    if smooth:
        t = np.arange(n) / 11025.
        cols = []
        for _ in range(channels):
            f, g, p = rng.uniform(200, 900), rng.uniform(.5, 3), \
                rng.uniform(0, 6)
            cols.append(.4 * np.sin(2 * np.pi * f * t + p) *
                        np.abs(np.sin(g * t)))
        x = np.stack(cols, axis=1)
    else:
        x = rng.uniform(-.8, .8, (n, channels))
    return x[:, 0] if channels == 1 else x


def encode(x, rate, fmt, subtype):
    import soundfile
    b = io.BytesIO()
    with soundfile.SoundFile(
            b, 'w', rate, 1 if x.ndim == 1 else x.shape[1], format=fmt,
            subtype=subtype) as f:
        # libsndfile keeps everything written at once to an ogg file on the
        # stack
        step = 1 << 18 if fmt == 'OGG' else len(x) or 1
        for i in range(0, len(x), step):
            f.write(x[i: i + step])
    return b.getvalue()


def decode(data):
    import soundfile
    return soundfile.read(io.BytesIO(data))


class SimFile(object):
    """
    A readable stream whose reads return as much as the schedule says, like a
    socket or a pipe would.
    """

    def __init__(self, data, reads, res=None):
        self._b = io.BytesIO(data)
        self._reads = reads
        self._i = 0
        self._res = res

    def seek(self, *a):
        return self._b.seek(*a)

    def tell(self):
        return self._b.tell()

    def read(self, n=-1):
        if n is None or n < 0:
            return self._b.read()
        if self._reads:
            k = self._reads[self._i % len(self._reads)]
            self._i += 1
            if k and k < n:
                n = k
                if self._res is not None:
                    self._res.fault('short read')
        return self._b.read(n)

    def readinto(self, buf):
        d = self._b.read(len(buf))
        buf[:len(d)] = d
        return len(d)


def make_reads(rng, size):
    """how much each read of a stream returns; 0: as much as asked for"""
    k = rng.random()
    if k < 0.35:
        return []
    if k < 0.5:
        return [rng.choice([1, 2, 3, 7, 43, 44, 45, 46])] + [0]
    top = max(2, size // 2)
    return [rng.choice([0, rng.randint(1, top), rng.randint(1, 300),
                        rng.randint(1, 5000)])
            for _ in range(rng.randint(1, 6))]


def chunksize(rng, size):
    k = rng.random()
    if k < 0.15:
        return size + 10
    if k < 0.3:
        return rng.choice([256, 1000, 4096, 8192])
    return max(64, int(size / rng.uniform(1, 12)))
