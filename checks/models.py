"""small document models for the index checks, built from public pieces"""
import numpy as np


def make_model(event_log, database, key_builder, version, packed,
               variable=False):
    """
    a document with an indexed feature, another time-varying feature and an
    unindexed one; `version` gives the processing code a different version
    """
    import featureflow as ff
    import zounds
    from zounds.persistence import ArrayWithUnitsFeature
    from zounds.core import ArrayWithUnits

    class Ids(ff.IdProvider):
        def new_id(self, *a, **k):
            return k['raw']['id']

    class Source(ff.Node):
        def __init__(self, needs=None):
            super(Source, self).__init__(needs=needs)

        def _process(self, data):
            yield data

    class Codes(ff.Node):
        part = 'codes'

        def __init__(self, needs=None):
            super(Codes, self).__init__(needs=needs)

        @property
        def version(self):
            return version

        def _process(self, data):
            arr = data[self.part]
            step = data.get('chunk') or len(arr)
            for i in range(0, len(arr), step):
                yield arr[i: i + step]

    class Others(Codes):
        part = 'others'

    class Tail(Codes):
        part = 'tail'

    class Settings(ff.PersistenceSettings):
        id_provider = Ids()
        pass

    Settings.key_builder = key_builder
    Settings.database = database
    if event_log is not None:
        Settings.event_log = event_log

    Indexed = ArrayWithUnitsFeature
    if variable:
        Indexed = zounds.VariableRateTimeSeriesFeature

    class Doc(ff.BaseModel, Settings):
        raw = ff.Feature(Source, store=False)
        code = Indexed(Codes, needs=raw, store=True)
        other = Indexed(Others, needs=raw, store=True)
        tail = ArrayWithUnitsFeature(Tail, needs=raw, store=True)

    return Doc


def make_payload(spec, packed, variable=False):
    """
    spec: {'id', 'codes': [hex...], 'freq', 'dur', 'other': hex, 'chunk'}
    """
    import zounds
    from zounds.core import ArrayWithUnits, IdentityDimension
    from zounds.timeseries import TimeDimension, Milliseconds

    def arr(hexes):
        raw = np.array(
            [np.frombuffer(bytes.fromhex(h), dtype=np.uint8) for h in hexes])
        if packed:
            raw = raw.copy().view(np.uint64)
        else:
            raw = np.unpackbits(raw, axis=-1)
        return ArrayWithUnits(raw, [
            TimeDimension(Milliseconds(spec['freq']),
                          Milliseconds(spec['dur'])),
            IdentityDimension()])

    def var(hexes):
        a = np.asarray(arr(hexes))
        return zounds.VariableRateTimeSeries([
            (zounds.TimeSlice(
                start=Milliseconds(i * spec['freq']),
                duration=Milliseconds(spec['dur'])), x)
            for i, x in enumerate(a)])

    indexed = var if variable else arr
    return dict(
        id=spec['id'], chunk=spec.get('chunk'),
        codes=indexed(spec['codes']), others=indexed(spec['others']),
        tail=arr(spec['others']))


def expected_slices(spec):
    """(start_ms, duration_ms, code) of every slice of a document"""
    return [
        (i * spec['freq'], spec['dur'], bytes.fromhex(h))
        for i, h in enumerate(spec['codes'])]


def slice_ms(ts):
    ms = np.timedelta64(1, 'ms')
    return (int(round(ts.start / ms)), int(round(ts.duration / ms)))
