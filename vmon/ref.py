"""Independent reference models (the oracles).

Everything here is double precision, element-wise over flat (t, lat, lon)
triples, with a single code path, and shares no code with sunwhere:

* ``spa``      NREL's SPA through pvlib's own implementation (delta_t = 67 s,
               sea level, 1013.25 hPa, 12 degC, the constants that sunwhere
               documents in ne_nrel).
* ``psa``      PSA with the 2020 coefficients (Blanco et al., 2020).
* ``soltrack`` SolTrack (van der Sluys and van Kan, 2022).
* ``iqbal``    Iqbal's Fourier series (with sunwhere's refitted ecf and eot).

Angles in degrees, azimuth zero south and positive westwards, eot in minutes.
t: POSIX seconds (float64/int64), UTC.
"""
import numpy as np
import pvlib.spa as _spa

D = np.degrees
R = np.radians
TWOPI = 2 * np.pi
REFR_LIMIT = -1.4545e-2      # rad, no refraction below this elevation


def wrap180(a):
    return (np.asarray(a) + 180.) % 360. - 180.


def _refr_spa(elev, scale):
    """SPA refraction (elev in rad)"""
    with np.errstate(all='ignore'):
        d = scale * 1.7802e-2 / (60 * np.tan(elev + 3.1376e-3 / (elev + 8.9186e-2)))
    return np.where(elev >= REFR_LIMIT, elev + d, elev)


def spa(t, lat, lon, refraction):
    t = np.asarray(t, float)
    lat = np.asarray(lat, float)
    lon = np.asarray(lon, float)
    t, lat, lon = np.broadcast_arrays(t, lat, lon)
    shape = t.shape
    t, lat, lon = t.ravel(), lat.ravel(), lon.ravel()
    dt = 67.0
    azen, zen, aelev, elev, az, eot = _spa.solar_position_numpy(
        t, lat, lon, 0., 1013.25, 12., dt, 0.5667, 1)[:6]
    jd = _spa.julian_day(t)
    jde = _spa.julian_ephemeris_day(jd, dt)
    jc = _spa.julian_century(jd)
    jce = _spa.julian_ephemeris_century(jde)
    jme = _spa.julian_ephemeris_millennium(jce)
    rad = _spa.heliocentric_radius_vector(jme)
    L = _spa.heliocentric_longitude(jme)
    B = _spa.heliocentric_latitude(jme)
    theta = _spa.geocentric_longitude(L)
    beta = _spa.geocentric_latitude(B)
    x0 = _spa.mean_elongation(jce)
    x1 = _spa.mean_anomaly_sun(jce)
    x2 = _spa.mean_anomaly_moon(jce)
    x3 = _spa.moon_argument_latitude(jce)
    x4 = _spa.moon_ascending_longitude(jce)
    lo = np.zeros((2, len(t)))
    _spa.longitude_obliquity_nutation(jce, x0, x1, x2, x3, x4, lo)
    eps = _spa.true_ecliptic_obliquity(_spa.mean_ecliptic_obliquity(jme), lo[1])
    lamd = _spa.apparent_sun_longitude(theta, lo[0], _spa.aberration_correction(rad))
    dec = _spa.geocentric_sun_declination(lamd, eps, beta)
    zen_true = zen
    if refraction:
        e = _refr_spa(R(elev), (1013.25 / 1010.) * (283. / (273 + 12.)))
        zen = 90. - D(e)
    out = {'zenith': zen, 'azimuth': wrap180(az - 180.), 'declination': dec,
           'eot': eot, 'ecf': 1. / rad**2, 'zenith_true': zen_true}
    return {k: np.asarray(v).reshape(shape) for k, v in out.items()}


def psa(t, lat, lon, refraction):
    t = np.asarray(t, float)
    n = t / 86400. - 10957.5
    hour = 24. * ((t / 86400.) % 1)
    om = 2.267127827 - 9.300339267e-4 * n
    L = 4.895036035 + 1.720279602e-2 * n
    g = 6.239468336 + 1.720200135e-2 * n
    lam = (L + 3.338320972e-2 * np.sin(g) + 3.497596876e-4 * np.sin(2 * g)
           - 1.544353226e-4 - 8.689729360e-6 * np.sin(om))
    ep = 4.090904909e-1 - 6.213605399e-9 * n + 4.418094944e-5 * np.cos(om)
    ra = np.arctan2(np.cos(ep) * np.sin(lam), np.cos(lam)) % TWOPI
    dec = np.arcsin(np.sin(ep) * np.sin(lam))
    gmst = 6.697096103 + 6.570984737e-2 * n + hour
    ha = R(gmst * 15 + lon) - ra
    z, az = _horizontal(ha, dec, R(lat))
    z = z + (6371.01 / 149597890.) * np.sin(z)
    zt = z
    if refraction:
        z = np.pi / 2 - _refr_spa(np.pi / 2 - z, 1.)
    eot = wrap180(D(L - ra)) * 4
    return _pack(z, az, dec, eot, 1. / _distance(n)**2, zt)


def _distance(n):
    T = n / 36525.
    ma = 6.240060141 + 628.301955152 * T - 2.682571e-6 * T**2
    sec = ((3.34161088e-2 - 8.40725e-5 * T - 2.443e-7 * T**2) * np.sin(ma)
           + (3.489437e-4 - 1.76278e-6 * T) * np.sin(2 * ma))
    ecc = 0.016708634 - 0.000042037 * T - 0.0000001267 * T**2
    return 1.0000010178 * (1 - ecc**2) / (1 + ecc * np.cos(ma + sec))


def soltrack(t, lat, lon, refraction):
    t = np.asarray(t, float)
    n = t / 86400. - 10957.5
    T = n / 36525.
    l0 = 4.895063168 + 628.331966786 * T + 5.291838e-6 * T**2
    ma = 6.240060141 + 628.301955152 * T - 2.682571e-6 * T**2
    sec = ((3.34161088e-2 - 8.40725e-5 * T - 2.443e-7 * T**2) * np.sin(ma)
           + (3.489437e-4 - 1.76278e-6 * T) * np.sin(2 * ma))
    om = 2.1824390725 - 33.7570464271 * T + 3.622256e-5 * T**2
    dpsi = -8.338601e-5 * np.sin(om)
    dist = _distance(n)
    lam = l0 + sec - 9.93087e-5 / dist + dpsi
    eps = (0.409092804222 - 2.26965525e-4 * T - 2.86e-9 * T**2
           + 4.4615e-5 * np.cos(om))
    ra = np.arctan2(np.cos(eps) * np.sin(lam), np.cos(lam)) % TWOPI
    dec = np.arcsin(np.sin(eps) * np.sin(lam))
    gmst = 4.89496121 + 6.300388098985 * n + 6.77e-6 * T**2
    ha = gmst + dpsi * np.cos(eps) - ra + R(lon)
    z, az = _horizontal(ha, dec, R(lat))
    alt = np.pi / 2 - z
    alt = alt - 4.2635e-5 * np.cos(alt)
    zt = np.pi / 2 - alt
    if refraction:
        with np.errstate(all='ignore'):
            d = 2.967e-4 / np.tan(alt + 3.1376e-3 / (alt + 8.92e-2))
        alt = np.where(alt >= REFR_LIMIT, alt + d, alt)
    eot = wrap180(D(l0 - ra + dpsi * np.cos(eps)) - 0.0057183) * 4
    return _pack(np.pi / 2 - alt, az, dec, eot, 1. / dist**2, zt)


def iqbal(t, lat, lon, refraction):
    t = np.asarray(t)
    t = t.astype('int64')
    days = t // 86400
    h = (t - days * 86400) / 3600.
    d = days.astype('datetime64[D]')
    doy = (d - d.astype('datetime64[Y]').astype('datetime64[D]')).astype(int) + 1
    G = TWOPI * (doy + h / 24.) / 365.

    def series(a0, *ab):
        return a0 + sum(a * np.cos((i + 1) * G) + b * np.sin((i + 1) * G)
                        for i, (a, b) in enumerate(ab))

    ecf = series(1.00012825e+00, (3.33572253e-02, 1.99417932e-03),
                 (6.97434604e-04, 1.14828177e-04), (1.74028675e-05, 1.13778023e-05))
    eot = series(0.00986571, (0.58688718, -7.34538133), (-3.31493999, -9.35366541),
                 (-0.08151750, -0.30892409), (-0.13532889, -0.17336220))
    dec = series(0.006918, (-0.399912, 0.070257), (-0.006758, 0.000907),
                 (-0.002697, 0.001480))
    ha = R((h + eot / 60. - 12.) * 15. + lon)
    z, az = _horizontal(ha, dec, R(lat))
    zt = z
    if refraction:
        a = np.pi / 2 - z
        ref = (0.061359 * (0.1594 + 1.1230 * a + 0.065656 * a * a)
               / (1. + 28.9344 * a + 277.3971 * a * a))
        z = np.where(a >= REFR_LIMIT, np.maximum(np.pi / 2 - a - ref, 0.), z)
    return _pack(z, az, dec, eot, ecf, zt)


def _horizontal(ha, dec, lat):
    """zenith and azimuth (south, west positive) through a rotation of the
    unit vector: well conditioned everywhere"""
    # equatorial frame attached to the observer's meridian
    x = np.cos(dec) * np.cos(ha)
    y = np.cos(dec) * np.sin(ha)        # west
    z = np.sin(dec)
    up = np.cos(lat) * x + np.sin(lat) * z
    south = np.sin(lat) * x - np.cos(lat) * z
    return np.arctan2(np.hypot(south, y), up), np.arctan2(y, south)


def _pack(z, az, dec, eot, ecf, zt):
    shape = np.broadcast_shapes(np.shape(z), np.shape(az))
    out = {'zenith': D(z), 'azimuth': D(az), 'declination': D(dec),
           'eot': eot, 'ecf': ecf, 'zenith_true': D(zt)}
    return {k: np.broadcast_to(v, shape) for k, v in out.items()}


MODEL = {'nrel': spa, 'psa': psa, 'soltrack': soltrack, 'iqbal': iqbal}


def evaluate(algorithm, t, lat, lon, refraction):
    t, lat, lon = np.broadcast_arrays(np.asarray(t), np.asarray(lat, float), np.asarray(lon, float))
    return MODEL[algorithm](t, lat, lon, refraction)


def separation(z1, a1, z2, a2):
    """great-circle distance in degrees between two directions in the sky"""
    z1, a1, z2, a2 = map(R, (z1, a1, z2, a2))
    dx = np.sin(z1) * np.cos(a1) - np.sin(z2) * np.cos(a2)
    dy = np.sin(z1) * np.sin(a1) - np.sin(z2) * np.sin(a2)
    dz = np.cos(z1) - np.cos(z2)
    # the cosine is flat near the zenith: add the zenith difference itself
    return D(2 * np.arcsin(np.clip(np.sqrt(dx**2 + dy**2 + dz**2) / 2, 0, 1)))


def subsolar(t):
    """(lat, lon) under the sun at t (SPA, geocentric)"""
    s = spa(t, 0., 0., False)
    hour = (np.asarray(t, float) % 86400) / 3600.
    lon = wrap180(180. - 15. * hour - s['eot'] / 4.)
    return s['declination'], lon
