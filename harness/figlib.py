"""What is drawn in a figure of accuracies."""
from vlib import *


def cells(fig):
    """Contents of the cells on and below the diagonal."""
    out = []
    for ax in fig.axes:
        ss = ax.get_subplotspec()
        if ss is None or ss.colspan.start > ss.rowspan.start or not ax.get_visible():
            continue
        c = dict(row=ss.rowspan.start + 1, col=ss.colspan.start + 1, line=[[], []], band=[[], [], []], pix=[], clim=[], xl=ax.get_xlabel(), yl=ax.get_ylabel(),
                 ylim=encv([float(v) for v in ax.get_ylim()]))
        if not (ax.lines or ax.images or ax.collections):
            continue
        for ln in ax.lines:
            c['line'] = [encv([float(v) for v in ln.get_xdata()]), encv([float(v) for v in ln.get_ydata()])]
        for im in ax.images:
            a = np.asarray(im.get_array())
            x0, x1, y0, y1 = im.get_extent()
            if im.origin == 'upper':
                y0, y1 = y1, y0
            ny, nx = a.shape
            c['pix'] = [[enc(x0 + (x1 - x0) * (i + 0.5) / nx), enc(y0 + (y1 - y0) * (j + 0.5) / ny), enc(float(a[j, i]))] for j in range(ny) for i in range(nx)]
            c['clim'] = encv([float(v) for v in im.get_clim()])
        for co in ax.collections:
            if hasattr(co, 'get_coordinates') and co.get_array() is not None:
                k = np.asarray(co.get_coordinates())
                k = (k[1:, 1:] + k[:-1, 1:] + k[1:, :-1] + k[:-1, :-1]) / 4
                a = np.asarray(co.get_array()).reshape(k.shape[:2])
                c['pix'] = [[enc(float(k[j, i, 0])), enc(float(k[j, i, 1])), enc(float(a[j, i]))] for j in range(a.shape[0]) for i in range(a.shape[1])]
                c['clim'] = encv([float(v) for v in co.get_clim()])
            else:
                v = np.concatenate([p.vertices for p in co.get_paths()])
                xs = np.unique(v[:, 0])
                c['band'] = [encv([float(x) for x in xs])] + [encv([float(f(v[v[:, 0] == x, 1])) for x in xs]) for f in (np.min, np.max)]
        out.append(c)
    return out
