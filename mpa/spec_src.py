"""Reference definitions of array operations.  They are *analysed*, not run: the abstract interpreter extracts the value
of a reference definition and of the package's operation and the two are compared."""
import numpy as np


def split(data):
    return np.array([data[0::2, 0::2], data[0::2, 1::2], data[1::2, 0::2], data[1::2, 1::2]])


def merge(fam):
    h, w = fam[0].shape
    data = np.zeros((2 * h, 2 * w))
    for y in range(h):
        for x in range(w):
            data[2 * y, 2 * x] = fam[0][y, x]
            data[2 * y, 2 * x + 1] = fam[1][y, x]
            data[2 * y + 1, 2 * x] = fam[2][y, x]
            data[2 * y + 1, 2 * x + 1] = fam[3][y, x]
    return data


def rebin_plain(data, n, new_height, new_width):
    out = np.zeros((new_height, new_width))
    for y in range(new_height):
        for x in range(new_width):
            for a in range(n):
                for b in range(n):
                    out[y, x] += data[n * y + a, n * x + b]
    return out


def rebin_family(fam, n, new_height, new_width):
    """each family is summed over n x n blocks of its own pixels"""
    return np.array([rebin_plain(fam[0], n, new_height, new_width), rebin_plain(fam[1], n, new_height, new_width),
                     rebin_plain(fam[2], n, new_height, new_width), rebin_plain(fam[3], n, new_height, new_width)])


def shift_plain(data, sy, sx, missing):
    H, W = data.shape
    out = missing * np.ones((H, W))
    for y in range(H):
        for x in range(W):
            if y - sy >= 0 and y - sy < H and x - sx >= 0 and x - sx < W:
                out[y, x] = data[y - sy, x - sx]
    return out


def ifov(data):
    H, W = data.shape
    out = np.zeros((H, W))
    for y in range(2, H):
        for x in range(2, W):
            out[y, x] = 0.25 * (data[y - 2, x - 2] + data[y - 2, x] + data[y, x - 2] + data[y, x])
    return out


def demosaic_mean(fam, k):
    """every pixel of a superpixel holds a quarter of the sample of family k"""
    h, w = fam[k].shape
    out = np.zeros((2 * h, 2 * w))
    for y in range(h):
        for x in range(w):
            out[2 * y, 2 * x] = 0.25 * fam[k][y, x]
            out[2 * y, 2 * x + 1] = 0.25 * fam[k][y, x]
            out[2 * y + 1, 2 * x] = 0.25 * fam[k][y, x]
            out[2 * y + 1, 2 * x + 1] = 0.25 * fam[k][y, x]
    return out


def demosaic_adjacent(fam, k):
    """samples of family k at the top-left pixel of each superpixel, averages of the neighbouring samples elsewhere,
    the last sample repeated at the lower and right border"""
    h, w = fam[k].shape
    f = fam[k]
    out = np.zeros((2 * h, 2 * w))
    for y in range(h):
        for x in range(w):
            y1 = min(y + 1, h - 1)
            x1 = min(x + 1, w - 1)
            out[2 * y, 2 * x] = f[y, x]
            out[2 * y + 1, 2 * x] = 0.5 * (f[y, x] + f[y1, x])
            out[2 * y, 2 * x + 1] = 0.5 * (f[y, x] + f[y, x1])
            out[2 * y + 1, 2 * x + 1] = 0.25 * (f[y, x] + f[y1, x] + f[y, x1] + f[y1, x1])
    return out


def demosaic_mean4(fam):
    return np.array([demosaic_mean(fam, 0), demosaic_mean(fam, 1), demosaic_mean(fam, 2), demosaic_mean(fam, 3)])


def demosaic_adjacent4(fam):
    return np.array([demosaic_adjacent(fam, 0), demosaic_adjacent(fam, 1), demosaic_adjacent(fam, 2), demosaic_adjacent(fam, 3)])


def merge4(fam):
    """interleaving of four families"""
    return merge(fam)


def shift_families(data, sy, sx, missing):
    f = split(data)
    return merge(np.array([shift_plain(f[0], sy, sx, missing), shift_plain(f[1], sy, sx, missing),
                           shift_plain(f[2], sy, sx, missing), shift_plain(f[3], sy, sx, missing)]))


def rebin_superpixels(data, n, new_height, new_width):
    """every family is summed over n x n blocks of its own samples, then the families are interleaved again"""
    return merge(rebin_family(split(data), n, new_height, new_width))


def rebin_mean(data, n, new_height, new_width):
    return rebin_plain(data, n, new_height, new_width) / (n * n)


def dark_subtracted(data, dark):
    d = data - dark
    return np.where(d >= 0, d, 0)


def flat_corrected(data, flat):
    nf = flat / np.mean(flat)
    return np.where(nf != 0, data / nf, 0.0)


def ratio(a, b):
    return np.where(b != 0, a / b, 0.0)


def upsampled(m):
    h, w = m.shape
    out = np.zeros((2 * h, 2 * w))
    for y in range(h):
        for x in range(w):
            out[2 * y, 2 * x] = m[y, x]
            out[2 * y, 2 * x + 1] = m[y, x]
            out[2 * y + 1, 2 * x] = m[y, x]
            out[2 * y + 1, 2 * x + 1] = m[y, x]
    return out


def clipped(data, lo, hi):
    d = np.where(data > lo, data, lo)
    return np.where(d < hi, d, hi)


def resampled(a, new_height, new_width):
    """bilinear resampling that keeps the four corners (one sample is repeated; one resulting sample is the first)"""
    H, W = a.shape
    out = np.zeros((new_height, new_width))
    for y in range(new_height):
        for x in range(new_width):
            py = y * (H - 1) / max(new_height - 1, 1)
            px = x * (W - 1) / max(new_width - 1, 1)
            y0 = max(min(int(py), H - 2), 0)
            x0 = max(min(int(px), W - 2), 0)
            y1 = min(y0 + 1, H - 1)
            x1 = min(x0 + 1, W - 1)
            ty = py - y0
            tx = px - x0
            out[y, x] = ((1 - ty) * (1 - tx) * a[y0, x0] + (1 - ty) * tx * a[y0, x1]
                         + ty * (1 - tx) * a[y1, x0] + ty * tx * a[y1, x1])
    return out


# ---- regions
def ring_sector(H, W, yc, xc, rmin, rmax, tmin, tmax):
    """pixels with rmin < distance <= rmax and tmin <= angle < tmax"""
    out = np.zeros((H, W))
    for y in range(H):
        for x in range(W):
            r = np.sqrt((y - yc) ** 2 + (x - xc) ** 2)
            t = (np.arctan2(y - yc, x - xc) * 180 / np.pi + 360) % 360
            if r > rmin and r <= rmax and t >= tmin and t < tmax:
                out[y, x] = 1
    return out


def roi_pixels(data, yc, xc, rmin, rmax, tmin, tmax, fill):
    H, W = data.shape
    return np.where(ring_sector(H, W, yc, xc, rmin, rmax, tmin, tmax) == 1, data, fill)


def roi_superpixels(data, yc, xc, rmin, rmax, tmin, tmax, fill):
    """the same on the grid of superpixels, in units of superpixels"""
    H, W = data.shape
    m = ring_sector(H // 2, W // 2, int(yc / 2), int(xc / 2), int(rmin / 2) if rmin > 0 else -1, int(rmax / 2), tmin, tmax)
    out = fill * np.ones((H, W))
    for y in range(H):
        for x in range(W):
            if m[y // 2, x // 2] == 1:
                out[y, x] = data[y, x]
    return out


def roi_pixels_center(data, yc, xc, rmin, rmax, tmin, tmax, fill):
    return roi_pixels(data, yc, xc, rmin if rmin > 0 else -1, rmax, tmin, tmax, fill)


def roi_pixels_bool(data, yc, xc, rmin, rmax, tmin, tmax):
    H, W = data.shape
    return ring_sector(H, W, yc, xc, rmin if rmin > 0 else -1, rmax, tmin, tmax) == 1


def roi_pixels_default(data, fill):
    """around the image center, up to the border"""
    H, W = data.shape
    yc = int(H / 2)
    xc = int(W / 2)
    return roi_pixels(data, yc, xc, -1, min(H - yc, W - xc), 0, 360, fill)


def error_stokes(mij, fam):
    """first order propagation of independent pixel errors through S_i = sum_j M_ij I_j"""
    S = []
    for i in range(3):
        v = 0
        for j in range(4):
            v = v + (mij[i][j] * fam[j]) ** 2
        S.append(np.sqrt(v))
    return np.array(S)


def inliers(data, m):
    """elements whose distance from the median is below m median deviations (all of them if the deviation is zero)"""
    d = np.abs(data - np.median(data))
    mad = np.median(d)
    if mad:
        return data[d < m * mad]
    return data[np.zeros(len(d)) < m]


def clip_to(data, lo, hi):
    return np.minimum(hi, np.maximum(lo, data))


def mean_std(data, n):
    return np.mean(data) + n * np.std(data)


def median_mad(data, n):
    return np.median(data) + n * np.median(np.abs(data - np.median(data)))


def first_crossing(profile, threshold):
    """distance of the first sample after the fifth that exceeds threshold times the mean of the nearer ones"""
    for i in range(6, len(profile)):
        if profile[i] > threshold * np.mean(profile[:i]):
            return i
    raise ValueError("no edge")


def first_crossings(data, threshold):
    H, W = data.shape
    hy, hx = H // 2, W // 2
    right = first_crossing(data[hy, hx:], threshold)
    left = first_crossing(np.flip(data[hy, :hx]), threshold)
    down = first_crossing(data[hy:, hx], threshold)
    up = first_crossing(np.flip(data[:hy, hx]), threshold)
    y0, y1, x0, x1 = hy - up, hy + down, hx - left, hx + right
    return int((y0 + y1) / 2), int((x0 + x1) / 2), int((abs(y1 - y0) / 2 + abs(x1 - x0) / 2) / 2)
