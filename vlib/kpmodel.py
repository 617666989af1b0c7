r"""Reference model of a path through high-symmetry points.  Nothing here imports wulfric."""

import numpy as np


class Model:
    def __init__(self, rcell, coordinates, names, labels, path, n):
        self.rcell = np.array(rcell, float)
        self.names = list(names)
        self.coordinates = {k: np.array(v, float) for k, v in zip(names, coordinates)}
        self.label = dict(zip(names, labels))
        self.path = [list(s) for s in path]
        self.n = n

    def copy(self):
        return Model(
            self.rcell,
            [self.coordinates[k] for k in self.names],
            self.names,
            [self.label[k] for k in self.names],
            self.path,
            self.n,
        )

    def at(self, name, relative):
        c = self.coordinates[name]
        return c if relative else c @ self.rcell

    def points(self, relative):
        out = []
        for s in self.path:
            for p, q in zip(s, s[1:]):
                u, v = self.at(p, relative), self.at(q, relative)
                for i in range(self.n + 2):
                    out.append(u + (v - u) * (i / (self.n + 1)))
        return np.array(out)

    def flat(self, relative):
        out, start = [], 0.0
        for s in self.path:
            for p, q in zip(s, s[1:]):
                length = np.linalg.norm(self.at(q, relative) - self.at(p, relative))
                for i in range(self.n + 2):
                    out.append(start + length * i / (self.n + 1))
                start += length
        return np.array(out)

    def ticks(self, relative):
        out, start = [0.0], 0.0
        for s in self.path:
            for p, q in zip(s, s[1:]):
                start += np.linalg.norm(self.at(q, relative) - self.at(p, relative))
                out.append(start)
        return np.array(out)

    def labels(self):
        out = [self.label[self.path[0][0]]]
        for i, s in enumerate(self.path):
            if i:
                out[-1] += "|" + self.label[s[0]]
            out += [self.label[p] for p in s[1:]]
        return out

    def path_string(self):
        return "|".join("-".join(s) for s in self.path)

    def judge(self, mon, kp, how):
        """Everything that can be read from ``kp`` agrees with the model."""
        tol = 1e-9 * (1 + np.abs(self.rcell).max())
        mon.expect(
            list(kp.hs_names) == self.names,
            f"names:{how}",
            f"names {kp.hs_names}, expected {self.names} after {how}",
        )
        mon.expect(
            set(kp.hs_coordinates) == set(self.names) == set(kp.hs_labels),
            f"keys:{how}",
            f"keys of the points after {how}",
        )
        for k in self.names:
            mon.close(
                kp.hs_coordinates[k], self.coordinates[k], tol, f"coordinates:{how}", k
            )
            mon.expect(
                kp.hs_labels[k] == self.label[k],
                f"label:{how}",
                f"label of {k} is {kp.hs_labels[k]}, expected {self.label[k]}",
            )
        mon.close(kp.rcell, self.rcell, 1e-12, f"rcell:{how}", "reciprocal cell")
        mon.expect(kp.n == self.n, f"n:{how}", f"n = {kp.n}, expected {self.n}")
        mon.expect(
            [list(s) for s in kp.path] == self.path,
            f"path:{how}",
            f"path {kp.path}, expected {self.path} after {how}",
        )
        mon.expect(
            mon.call(lambda: kp.path_string) == self.path_string(),
            f"path_string:{how}",
            f"{kp.path_string}, expected {self.path_string()}",
        )
        got = mon.call(lambda: kp.labels)
        mon.expect(
            list(got) == self.labels(),
            f"labels:{how}",
            f"labels {got}, expected {self.labels()}",
        )
        for rel in (False, True):
            p = mon.call(kp.points, relative=rel)
            mon.close(p, self.points(rel), tol, f"points:{how}", f"points, relative={rel}")
            f = mon.call(kp.flat_points, relative=rel)
            mon.close(
                f, self.flat(rel), tol * 10, f"flat_points:{how}", f"flat, relative={rel}"
            )
            t = mon.call(kp.ticks, relative=rel)
            mon.close(t, self.ticks(rel), tol * 10, f"ticks:{how}", f"ticks, relative={rel}")
            # laws that do not need the model
            f, t, p = np.array(f), np.array(t), np.array(p)
            mon.expect(len(p) == len(f), f"lengths:{how}", "points and flat points")
            mon.expect(len(t) == len(got), f"lengths:{how}", "ticks and labels")
            mon.expect(np.all(np.diff(f) >= -1e-9), f"order:{how}", "flat points decrease")
            ends = f[self.n + 1 :: self.n + 2]
            mon.close(ends, t[1:], tol * 10, f"ticks and points:{how}", "ends of segments")
            mon.count("views judged", 3)
        mon.count("states judged")
