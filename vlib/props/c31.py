import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
from .. import ref, gen
from ..mon import snap
from oranssi import plot_utils

RULE = ('one evaluation = one grid point whose drawn colour is read from the rendered figure, translated into a cost by the '
        'colours of the rendered colour bar, and compared with the cost handed over, or one label whose size is read back; '
        'distinct = (grid shape, landscape, spacing); non-trivial when the landscape is not symmetric in its two axes.')
NEED = {'point': 1500, 'axes': 40, 'labels': 300, 'inputs': 40}
DPI = 100


def cases(rng, tier):
    big = tier != 'quick'
    out = []
    for _ in range(400 if big else 56):
        K, L = [int(x) for x in rng.integers(3, 22, 2)]
        if rng.random() < 0.25:
            L = K
        out.append({'kind': 'land', 'K': K, 'L': L, 'what': ['bloch', 'ramp', 'bump', 'noise'][rng.integers(4)], 'even': bool(rng.random() < 0.6), 'desc': int(rng.choice([0, 0, 0, 1, 2, 3])), 'shift': float(rng.choice([0, 0, -np.pi, 1.5])), 'full': bool(rng.random() < 0.6), 'order': 'F' if rng.random() < 0.3 else 'C',
                    'scale': float(10.0 ** rng.integers(-3, 4)), 'off': float(np.round(rng.normal(0, 2) * (200 if rng.random() < 0.25 else 1), 3)), 'panels': int(rng.integers(1, 4)), 'at': 0, 'list': bool(rng.random() < 0.2), 'seed': gen.sub(rng)})
    for i in range(60 if big else 8):
        K, L = int(rng.integers(70, 135)), int(rng.integers(3, 12))
        if i % 2:
            K, L = L, K
        out.append({'kind': 'land', 'K': K, 'L': L, 'what': ['noise', 'noise', 'bump'][i % 3], 'even': bool(i % 4 < 2), 'desc': 0, 'shift': 0.0, 'full': True, 'order': 'C', 'scale': 1.0, 'off': 0.0, 'panels': 1, 'at': 0, 'list': False, 'seed': gen.sub(rng)})
    for _ in range(200 if big else 40):
        out.append({'kind': 'labels', 'panels': int(rng.integers(1, 4)), 'size': int(rng.choice([1, 5, 8, 15, 23, 40])), 'draw': bool(rng.random() < 0.5), 'log': bool(rng.random() < 0.25), 'ticks': bool(rng.random() < 0.3), 'seed': gen.sub(rng)})
    return out


def grid(rng, n, hi, even):
    if even:
        return np.linspace(0, hi, n)
    x = np.cumsum(rng.uniform(0.6, 1.6, n))
    return (x - x[0]) / (x[-1] - x[0]) * hi


def rendered(fig):
    fig.canvas.draw()
    return np.asarray(fig.canvas.buffer_rgba())[:, :, :3].astype(float)


def pixel(img, trans, x, y):
    px, py = trans.transform((x, y))
    r, c = img.shape[0] - 1 - int(np.floor(py)), int(np.floor(px))
    return img[min(max(r, 0), img.shape[0] - 1), min(max(c, 0), img.shape[1] - 1)]


def land(case, m):
    rng = np.random.default_rng(case['seed'])
    K, L = case['K'], case['L']
    phi = grid(rng, K, 2 * np.pi if case['full'] else float(rng.uniform(1, 5)), case['even'])
    theta = grid(rng, L, np.pi if case['full'] else float(rng.uniform(1, 3)), case['even'])
    phi, theta = phi + case['shift'], theta + case['shift'] / 2
    if case['desc'] & 1:
        phi = phi[::-1]
    if case['desc'] & 2:
        theta = theta[::-1]
    pp, tt = np.meshgrid(phi, theta)
    v = rng.normal(size=3)
    v /= np.linalg.norm(v)
    if case['what'] == 'bloch':
        z = v[0] * np.sin(tt) * np.cos(pp) + v[1] * np.sin(tt) * np.sin(pp) + v[2] * np.cos(tt)
    elif case['what'] == 'ramp':
        z = v[0] * pp + 2 * v[1] * tt
    elif case['what'] == 'bump':
        z = np.exp(-((pp - phi[K // 3]) ** 2 + (tt - theta[(2 * L) // 3]) ** 2))
    else:
        z = rng.normal(size=(L, K))
    z = np.array(z * case['scale'] + case['off'] * case['scale'], order=case['order'])
    fig, axs = plt.subplots(1, case['panels'], dpi=DPI)
    fig.set_size_inches(*((6 * case['panels'] + 1, 5) if max(K, L) < 50 else (20, 6) if K > L else (7, 18)))
    axs = np.ravel(np.array(axs, dtype=object))
    ax = axs[int(rng.integers(case['panels']))]
    others = [a for a in axs if a is not ax]
    keep = snap([phi, theta, z])
    m.call('drawing the landscape', plot_utils.plot_bloch_sphere_2d, phi.tolist() if case['list'] else phi, theta.tolist() if case['list'] else theta, z, ax, fig)
    m.check(snap([phi, theta, z]) == keep, 'the plot modified its data', 'inputs')
    m.check('phi' in ax.get_xlabel() and 'theta' in ax.get_ylabel(), 'axes are mislabelled', 'axes', x=ax.get_xlabel(), y=ax.get_ylabel())
    new = [a for a in fig.axes if a not in list(axs)]
    m.check(len(new) == 1, 'there is not exactly one colour bar', 'axes', stop=True, n=len(new))
    m.check(all(not a.has_data() for a in others), 'another panel was drawn on', 'axes')
    ax.set_axis_on()
    img = rendered(fig)
    x0, x1 = ax.get_xlim()
    y0, y1 = ax.get_ylim()
    m.check(min(x0, x1) <= phi.min() + 1e-9 and max(x0, x1) >= phi.max() - 1e-9 and min(y0, y1) <= theta.min() + 1e-9 and max(y0, y1) >= theta.max() - 1e-9, 'the landscape is cut off', 'axes', lim=[x0, x1, y0, y1])
    # translate colours back with the colour bar that was drawn
    bar = new[0]
    box = bar.get_window_extent()
    vert = box.height >= box.width
    lo, hi = bar.get_ylim() if vert else bar.get_xlim()
    N = 400
    vals = lo + (np.arange(N) + 0.5) / N * (hi - lo)
    mid = np.mean(bar.get_xlim() if vert else bar.get_ylim())
    cols = np.array([pixel(img, bar.transData, *((mid, t) if vert else (t, mid))) for t in vals])
    span = z.max() - z.min()
    m.check(lo <= z.min() + 0.25 * span and hi >= z.max() - 0.25 * span, 'the colour bar does not cover the costs', 'axes', bar=[lo, hi], costs=[float(z.min()), float(z.max())])
    seen = 0
    for l in range(1, L - 1):
        for k in range(1, K - 1):
            near = z[l - 1:l + 2, k - 1:k + 2]
            rough = np.max(np.abs(near - z[l, k]))
            c = pixel(img, ax.transData, phi[k], theta[l])
            d = np.abs(cols - c).sum(axis=1)
            hit = vals[d <= d.min() + 6]
            if d.min() > 60:
                m.event('offscale')          # antialiased edge or decoration
                continue
            slack = 0.06 * span + 0.35 * rough
            m.check(hit.min() - slack <= z[l, k] <= hit.max() + slack, 'the colour drawn at (phi_k, theta_l) does not stand for the cost there', 'point', stop=True,
                    k=k, l=l, cost=float(z[l, k]), drawn=[float(hit.min()), float(hit.max())], costs=[float(z.min()), float(z.max())])
            seen += 1
    m.check(seen >= 0.5 * (K - 2) * (L - 2), 'most of the landscape is not drawn in the colours of its colour bar', 'axes', seen=seen, of=(K - 2) * (L - 2))
    m.key(K, L, case['what'], case['even'], case['scale'])
    m.sample(shape=[L, K], what=case['what'], points=seen, bar=[float(lo), float(hi)])
    plt.close(fig)


def sizes(ax):
    return [t.get_fontsize() for t in [ax.xaxis.label, ax.yaxis.label] + ax.get_xticklabels() + ax.get_yticklabels()]


def labels(case, m):
    rng = np.random.default_rng(case['seed'])
    fig, axs = plt.subplots(1, case['panels'])
    axs = np.ravel(np.array(axs, dtype=object))
    for a in axs:
        a.plot(rng.uniform(1, 5, 6), rng.uniform(1, 5, 6), label='a')
        a.set_xlabel('x')
        a.set_ylabel('y')
        a.set_title('title')
        a.legend()
        if case['log']:
            a.set_yscale('log')
        if case['ticks']:
            a.set_xticks([1, 2, 3, 4])
    if case['draw']:
        fig.canvas.draw()
    ax = axs[int(rng.integers(case['panels']))]
    others = [sizes(a) for a in axs if a is not ax]
    data = snap([np.asarray(l.get_xydata()) for a in axs for l in a.get_lines()])
    rest = [ax.title.get_fontsize(), ax.get_legend().get_texts()[0].get_fontsize(), ax.get_xlim(), ax.get_ylim(), ax.get_xlabel(), ax.get_ylabel()]
    r = m.call('changing label sizes', plot_utils.change_label_fontsize, ax, case['size'])
    for s in sizes(ax):
        m.check(s == case['size'], 'a label kept its size', 'labels', stop=True, got=s, want=case['size'])
    if case['draw']:
        fig.canvas.draw()
        for s in sizes(ax):
            m.check(s == case['size'], 'a label lost its size when drawn', 'labels', stop=True)
    m.check([sizes(a) for a in axs if a is not ax] == others, 'labels of another panel changed', 'labels')
    m.check(snap([np.asarray(l.get_xydata()) for a in axs for l in a.get_lines()]) == data, 'plotted data changed', 'inputs')
    m.check([ax.title.get_fontsize(), ax.get_legend().get_texts()[0].get_fontsize(), ax.get_xlim(), ax.get_ylim(), ax.get_xlabel(), ax.get_ylabel()] == rest, 'more than the labels changed', 'labels')
    m.key('labels', case['panels'], case['size'], case['draw'], case['log'])
    plt.close(fig)


def run(case, m):
    try:
        (land if case['kind'] == 'land' else labels)(case, m)
    finally:
        plt.close('all')
